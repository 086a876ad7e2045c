------------------------------ MODULE LambertMC -----------------------------
EXTENDS Lambert
MCInit == \E t \in 1..(N-1), d \in {1, -1}, tn \in 0..(MaxTurns + 1) : \E f \in Fracs(tn) :
            t # N \div 2 /\ th = t /\ dir = d /\ turns = tn /\ frac = f /\ lists = None
MCNext == (\E m \in Caps : Solve(m) \/ SolveOther(m)) \/ Reverse \/ Spin \/ Rescale
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
