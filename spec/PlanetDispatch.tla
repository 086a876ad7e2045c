---------------------------- MODULE PlanetDispatch --------------------------
(***************************************************************************)
(* What a planet answers, as a function of what its user type offers.      *)
(* A user type is known by a number: 0..511 is the set of optional         *)
(* capabilities it offers, bit by bit; 512+j offers everything but         *)
(* capability j, which it has under its name with another return type (not *)
(* the capability); 521+j offers nothing but such a look-alike.            *)
(* Each planet also has an orbit [cls, ori, unit], which its mandatory     *)
(* ephemeris follows.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlots, Types
Slots == 1..NSlots
Cap == <<"mu_central_body", "mu_self", "radius", "safe_radius", "name", "extra_info", "eph_v", "period", "elements">>
Pow2(j) == CASE j = 1 -> 1 [] j = 2 -> 2 [] j = 3 -> 4 [] j = 4 -> 8 [] j = 5 -> 16 [] j = 6 -> 32 [] j = 7 -> 64 [] j = 8 -> 128 [] j = 9 -> 256
Caps(t) == IF t < 512 THEN {Cap[j] : j \in {i \in 1..9 : (t \div Pow2(i)) % 2 = 1}}
           ELSE IF t < 521 THEN {Cap[j] : j \in (1..9) \ {t - 511}} ELSE {}
Ell == {"circ", "low", "mid", "high", "near"}
Hyp == {"hnear", "hlow", "hmid", "hfast"}
Oris == {"gen", "flat0", "flat180", "polar", "retro", "aligned"}
Units == {"one", "si", "tiny", "mixed"}
ElTypes == {"KEP_M", "KEP_F", "MEQ", "MEQ_R", "POSVEL"}
Forms == {"mjd", "epoch", "default"}      \* a day number, an epoch, or nothing at all
VARIABLES pl
vars == <<pl>>
Has(s, c) == c \in Caps(pl[s].type)
Unbound(s) == pl[s].cls \in Hyp
\* the scalar parameters: the user's or -1, the type's name, nothing
Params(s) == [j \in 1..6 |-> IF Has(s, Cap[j]) THEN "user" ELSE "default"]
EphV(s) == IF Has(s, "eph_v") THEN "user" ELSE "each"
Period(s) == IF Has(s, "period") THEN "user" ELSE IF ~Has(s, "mu_central_body") THEN "not_implemented" ELSE IF Unbound(s) THEN "nan" ELSE "energy"
Elements(s, el) == IF Has(s, "elements") THEN "user" ELSE IF ~Has(s, "mu_central_body") THEN "not_implemented"
                   ELSE IF el = "POSVEL" \/ (el = "KEP_M" /\ Unbound(s)) THEN "logic_error" ELSE "state"
\* elements that the geometry leaves undefined are not asked for
Asked(s, el) == \/ Elements(s, el) # "state"
                \/ el = "MEQ" /\ pl[s].ori # "flat180"
                \/ el = "MEQ_R" /\ pl[s].ori # "flat0"
                \/ el \in {"KEP_F", "KEP_M"} /\ pl[s].ori \notin {"flat0", "flat180"} /\ pl[s].cls # "circ"
----------------------------------------------------------------------------
Make(s, p) == pl' = [pl EXCEPT ![s] = p]
Assign(s, t) == pl' = [pl EXCEPT ![t] = pl[s]]
Ask == UNCHANGED vars
Init == pl = [s \in Slots |-> [type |-> 0, cls |-> "low", ori |-> "gen", unit |-> "one"]]
=============================================================================
