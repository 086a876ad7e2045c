------------------------------- MODULE CR3BPMC ------------------------------
EXTENDS CR3BP
MCNext == \/ \E s \in Slots, k \in Kinds, tol \in 1..NTols : Get(s, k, tol)
          \/ \E s \in Slots, t \in Slots : Copy(s, t)
          \/ \E s \in Slots, m \in 0..NMus : SetMu(s, m)
          \/ \E s \in Slots, o \in 1..NOrigins, c \in {0, 2} : Place(s, o, c)
          \/ \E s \in Slots, dt \in {-2, -1, 1, 2} : Fly(s, dt)
          \/ \E k \in Kinds, tol \in 1..NTols : Look(k, tol)
MCSpec == Init /\ [][MCNext]_vars
\* a state flown there and back is its origin: it can be given another mass parameter
Back == \A s \in Slots : (Live(s) /\ ta[s].t = 0) => \A m \in 0..NMus : ENABLED SetMu(s, m)
=============================================================================
