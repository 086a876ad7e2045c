----------------------------- MODULE KepPlanetMC ----------------------------
EXTENDS KepPlanet
CONSTANTS Angles, Incs, Turns, Refs
MCMake == \E v \in Vias, c \in {"circ", "mid", "hlow"}, i \in Incs, W \in Angles, w \in Angles, p \in Angles, r \in Refs, n \in Turns :
   Make(1, [via |-> v, cls |-> c, unit |-> "one", i |-> i, W |-> IF Flat(i) THEN 0 ELSE W, w |-> IF c = "circ" THEN 0 ELSE w, pos |-> p, ref |-> r, turn |-> n])
\* one planet of every kind (planets do not interact: see PlanetValue)
MCNext == pl = [s \in Slots |-> First] /\ MCMake
MCSpec == Init /\ [][MCNext]_vars
\* after a turn, and only then, a bound planet is where it was; it is at its reference place at its reference epoch
Periodic == \A s \in Slots : LET p == pl[s] IN
   /\ Phase(p, p.ref) = 0
   /\ ~Unbound(p) => \A k \in -9..9 : Phase(p, k + p.turn) = Phase(p, k) /\ \A d \in 1..(p.turn - 1) : Phase(p, k + d) # Phase(p, k)
\* time runs alike for everybody: a tick later, a tick further
Flow == \A s \in Slots : LET p == pl[s] IN \A k \in -9..9 :
   IF Unbound(p) THEN Phase(p, k + 1) = Phase(p, k) + 1 ELSE Phase(p, k + 1) = (Phase(p, k) + 1) % p.turn
\* all element types speak of the same orbit: inclination and node are common, the two longitudes of the pericentre
\* are the argument plus and minus the node, the place is the same
Consistent == \A s \in Slots : LET p == pl[s] IN \A el \in {"KEP_F", "MEQ", "MEQ_R"} : Elements(p, el) = "state" /\ Asked(p, el) =>
   LET v == Held(p, el) IN
   /\ v[1] = p.i /\ (v[2] # EL!NA => v[2] = p.W % 360)
   /\ (v[3] # EL!NA => v[4] = p.pos % 360)
   /\ (v[3] # EL!NA /\ el # "KEP_F" => v[3] = (p.w + (IF el = "MEQ" THEN 1 ELSE -1) * p.W) % 360)
=============================================================================
