-------------------------- MODULE PlanetDispatchMC --------------------------
(* All 530 kinds of user types. *)
EXTENDS PlanetDispatch
MCNext == \/ \E s \in Slots, t \in Types, c \in {"low", "hmid"} : Make(s, [type |-> t, cls |-> c, ori |-> "gen", unit |-> "one"])
MCSpec == Init /\ [][MCNext]_vars
\* a not-implemented error is raised exactly when neither the type nor the default can answer
Answerable == \A s \in Slots : /\ (Period(s) = "not_implemented") <=> {"period", "mu_central_body"} \cap Caps(pl[s].type) = {}
                               /\ \A el \in ElTypes : (Elements(s, el) = "not_implemented") <=> {"elements", "mu_central_body"} \cap Caps(pl[s].type) = {}
\* one more capability never takes an answer away
Order == [s \in {"not_implemented", "nan", "logic_error", "energy", "state", "user"} |-> IF s = "not_implemented" THEN 0 ELSE IF s = "user" THEN 2 ELSE 1]
Monotone == \A s \in Slots : LET t == pl[s].type IN t < 512 =>
              \A j \in 1..9 : (t \div Pow2(j)) % 2 = 0 =>
                 LET more == [pl EXCEPT ![s].type = t + Pow2(j)]
                     p2 == IF "period" \in Caps(t + Pow2(j)) THEN "user" ELSE IF "mu_central_body" \notin Caps(t + Pow2(j)) THEN "not_implemented" ELSE IF Unbound(s) THEN "nan" ELSE "energy"
                 IN Order[p2] >= Order[Period(s)]
LookAlike == \A s \in Slots : pl[s].type >= 521 => Params(s) = [j \in 1..6 |-> "default"] /\ EphV(s) = "each"
=============================================================================
