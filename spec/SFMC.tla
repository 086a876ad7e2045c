-------------------------------- MODULE SFMC --------------------------------
EXTENDS SF
Sc == {1, 0, -1}
Cfgs == {[Default EXCEPT !.tof = x, !.thr = t, !.cut = k] : x \in {1, -1}, t \in {<<>>, <<1, 2>>}, k \in {0, 65}}
MCNext == \/ \E s \in Slots, c \in Cfgs, x \in {0, 1} : Build(s, c, x) \/ SetAll(s, c, x)
          \/ \E s \in Slots : BuildDefault(s) \/ SelfThr(s) \/ Look(s)
          \/ \E s \in Slots, x \in {1, 0, -1} : SetScalar(s, "tof", x)
          \/ \E s \in Slots, k \in {-1, 32, 64} : SetCut(s, k)
          \/ \E s \in Slots, t \in {<<>>, <<1, 2, 2>>}, x \in {0, 2} : SetThr(s, t, x)
          \/ \E s \in Slots : Len(flights) < 1 /\ Fly(s)
          \/ \E s \in Slots, t \in Slots : Copy(s, t) \/ Move(s, t)
          \/ \E s \in Slots, f \in Files : Save(s, f) \/ Load(f, s)
MCSpec == Init /\ [][MCNext]_vars
Small == Len(flights) <= 1
\* being flown survives moving the cut, and nothing else
FlownCut == [][\A s \in Slots : (Flown(legs[s]) /\ legs'[s].live /\ Plan(legs'[s]) = Plan(legs[s]) /\ legs'[s].rvf = legs[s].rvf /\ legs'[s].mf = legs[s].mf) => (Flown(legs[s]))']_vars
=============================================================================
