------------------------------- MODULE StarkMC ------------------------------
EXTENDS Stark
Cfgs == {[Default EXCEPT !.mu = m, !.veff = v] : m \in {0, 1}, v \in {1, 2}}
MCNext == \/ \E s \in Slots : (\E c \in Cfgs : Build(s, c)) \/ Tamper(s) \/ Look(s) \/ (\E w \in Dooms : Doomed(s, w, FALSE))
          \/ \E s \in Slots, x \in {1, 2} : SetVeff(s, x) \/ SetMu(s, x)
          \/ \E s \in Slots, t \in Slots : Copy(s, t) \/ Move(s, t)
          \/ \E s \in Slots, f \in Files : Save(s, f) \/ Load(f, s)
          \/ \E k \in Regs, o \in {1, 2} : Place(k, o)
          \/ \E s \in Slots, k \in Regs, j \in Regs, u \in {0, 1}, dt \in {-2, -1, 1} : Fly(s, k, j, u, dt, u = 1)
MCSpec == Init /\ [][MCNext]_vars
\* whatever was done in between, a state at net time zero is its origin again and can be flown with any settings
Returns == \A s \in Slots, k \in Regs, u \in {0, 1} : (pr[s].live /\ reg[k].o # 0 /\ reg[k].t = 0) => Goes(s, k, u)
=============================================================================
