---------------------------- MODULE PlanetValueMC ---------------------------
EXTENDS PlanetValue
VARIABLE last    \* the action taken and the slots it may touch
mcv == <<vars, last>>
MCInit == Init /\ last = {}
MCNext == \/ \E s \in Slots, x \in Things : Make(s, x) /\ last' = {s}
          \/ \E s, t \in Slots : (Copy(s, t) /\ last' = {t}) \/ (Move(s, t) /\ last' = {s, t}) \/ (Swap(s, t) /\ last' = {s, t})
          \/ \E s \in Slots, t \in Tags : Mutate(s, t) /\ last' = {s}
          \/ \E s \in Slots, f \in Files : (Save(s, f) /\ last' = {}) \/ (Load(f, s) /\ last' = {s})
MCSpec == MCInit /\ [][MCNext]_mcv
TypeOK == \A s \in Slots : sl[s] \in Things \cup {Gone}
FilesOK == \A f \in Files : files[f] \in Things
\* no aliasing: nothing changes but what the action names
Frame == [][\A s \in Slots : s \notin last' => sl'[s] = sl[s]]_mcv
\* a moved-from planet comes from a move only; whatever is not gone is a whole value
Kept == [][(\E s \in Slots : sl'[s] = Gone /\ sl[s] # Gone) => Cardinality(last') = 2]_mcv
=============================================================================
