----------------------------- MODULE LambertObjMC ---------------------------
EXTENDS LambertObj
MCNext == \/ next <= MaxId /\ \E s \in Slots, a \in Numbers, b \in Numbers, g \in Geos : Build(s, a, b, g)
          \/ \E s \in Slots, t \in Slots : Copy(s, t) \/ Move(s, t)
          \/ \E s \in Slots, f \in Files : Save(s, f) \/ Load(f, s)
          \/ \E s \in Slots : Look(s)
MCSpec == Init /\ [][MCNext]_vars
=============================================================================
