-------------------------------- MODULE HFMC --------------------------------
EXTENDS HF
Cfgs == {[Default EXCEPT !.tof = x, !.thr = t, !.cut = k, !.tol = q] : x \in {1, -1}, t \in {<<>>, <<1, 2>>}, k \in {0, 65}, q \in {0, 2}}
Part(x, t) == [rvs |-> 1, ms |-> 1, thr |-> t, rvf |-> 1, mf |-> 1, tof |-> x]
MCNext == \/ \E s \in Slots, c \in Cfgs, x \in {0, 1} : Build(s, c, x) \/ SetAll(s, c, x)
          \/ \E s \in Slots : BuildDefault(s) \/ SelfThr(s) \/ Look(s)
          \/ \E s \in Slots, x \in {1, -1}, t \in {<<>>, <<1>>} : SetPart(s, Part(x, t), 0) \/ Chrom(s, Part(x, t))
          \/ \E s \in Slots, x \in {1, 0, -1} : SetScalar(s, "tof", x) \/ SetScalar(s, "tol", x)
          \/ \E s \in Slots, k \in {-1, 32, 64} : SetCut(s, k)
          \/ \E s \in Slots, t \in {<<>>, <<1, 2, 2>>}, x \in {0, 2} : SetThr(s, t, x)
          \/ \E s \in Slots : Len(flights) < 1 /\ Fly(s)
          \/ \E s \in Slots, t \in Slots : Copy(s, t) \/ Move(s, t)
          \/ \E s \in Slots, f \in Files : Save(s, f) \/ Load(f, s)
MCSpec == Init /\ [][MCNext]_vars
Small == Len(flights) <= 1
=============================================================================
