------------------------------ MODULE KepPlanet -----------------------------
(***************************************************************************)
(* Planets on Kepler orbits. Each slot holds a planet made from a state    *)
(* (POSVEL) or from one of the element types, given for a reference epoch. *)
(* Angles are whole degrees; pos is the place at the reference epoch, a    *)
(* mean anomaly for planets made from KEP_M and a true anomaly otherwise.  *)
(* Time is counted in ticks of 3/128 of a day (exact in every              *)
(* representation of time). A bound planet completes one turn in turn      *)
(* ticks; its phase is the number of ticks since its passage through the   *)
(* reference position, which only time changes.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlots
VARIABLES pl
vars == <<pl>>
EL == INSTANCE Elements WITH orb <- 0, rep <- 0, val <- 0, noise <- 0
Slots == 1..NSlots
Ell == EL!Ell
Hyp == EL!Hyp
Units == EL!Units
Vias == {"POSVEL", "KEP_F", "KEP_M", "MEQ", "MEQ_R"}
ElTypes == Vias
Flat(x) == x \in {0, 180}
Unbound(p) == p.cls \in Hyp
\* a planet that can be made: pos is on the orbit, the way it is described is regular there
Makeable(p) == /\ p.via = "KEP_M" => ~Unbound(p)
               /\ p.via # "KEP_M" => (p.pos % 360) \in EL!Fs(p.cls)
               /\ p.via = "MEQ" => p.i <= 175
               /\ p.via = "MEQ_R" => p.i >= 5
\* the ways of asking for a planet that cannot exist, and how they are refused
BadKinds == {"sign", "nan", "asymptote", "mean_unbound", "type"}
Refusal(kind) == IF kind \in {"mean_unbound", "type"} THEN "logic_error" ELSE "domain_error"
\* ------------------------------------------------------------------ answers
Phase(p, k) == IF Unbound(p) THEN k - p.ref ELSE (k - p.ref) % p.turn
Period(p) == IF Unbound(p) THEN "nan" ELSE "turn"
Elements(p, el) == IF el = "POSVEL" \/ (el = "KEP_M" /\ Unbound(p)) THEN "logic_error" ELSE "state"
Asked(p, el) == \/ Elements(p, el) # "state"
                \/ el = "MEQ" /\ p.i <= 175
                \/ el = "MEQ_R" /\ p.i >= 5
                \/ el \in {"KEP_F", "KEP_M"} /\ ~Flat(p.i) /\ p.cls # "circ"
\* what the elements hold, in degrees: inclination, node, pericentre (its longitude if equinoctial), and the place
\* measured from the pericentre in the planet's own kind of anomaly
Held(p, el) == LET r == CASE el = "MEQ" -> "eq" [] el = "MEQ_R" -> "eqr" [] OTHER -> "par"
                   v == EL!Enc([cls |-> p.cls, unit |-> p.unit, i |-> p.i, W |-> p.W, w |-> p.w, f |-> p.pos % 360, off |-> 0], r)
               IN <<v[1], v[2], v[3], IF r = "par" \/ v[3] = EL!NA THEN v[4] ELSE EL!M360(v[4] - v[3])>>
\* a planet without a pericentre counts its place from the node, and one without a node from the x axis
----------------------------------------------------------------------------
First == [via |-> "POSVEL", cls |-> "low", unit |-> "one", i |-> 30, W |-> 40, w |-> 50, pos |-> 60, ref |-> 0, turn |-> 365]
Make(s, p) == Makeable(p) /\ pl' = [pl EXCEPT ![s] = p]
Assign(s, t) == pl' = [pl EXCEPT ![t] = pl[s]]
Refuse == UNCHANGED vars
Ask == UNCHANGED vars
Init == pl = [s \in Slots |-> First]
----------------------------------------------------------------------------
TypeOK == \A s \in Slots : Makeable(pl[s])
=============================================================================
