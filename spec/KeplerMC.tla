------------------------------ MODULE KeplerMC ------------------------------
(* Exhaustive design check: every history of up to Depth legs over all shapes. *)
EXTENDS Kepler
CONSTANT Depth
VARIABLES net, steps   \* net ticks since the record began, legs flown
mcvars == <<orb, k, noise, tang, net, steps>>
MCInit == Init /\ net = 0 /\ steps = 0
Choose == /\ steps = 0
          /\ \E c \in Shapes, f \in {"apse", "free"} : \E t \in TickOf(c) : Start(c, "gen", "one", f, t, 0)
          /\ steps' = 1 /\ net' = 0
Leg(dk) == /\ steps \in 1..Depth
           /\ \/ \E m \in Usable : Prop(m, dk) /\ net' = 0
              \/ \E a \in StmAlgos : Stm(a, dk) /\ net' = net + dk
           /\ steps' = steps + 1
MCNext == Choose \/ \E dk \in Dks : Leg(dk)
MCSpec == MCInit /\ [][MCNext]_mcvars
\* whatever the order of legs and methods, only sums matter
TangentMatchesNet == tang = Shear(net)
View == <<orb, k, tang, net, steps>>
=============================================================================
