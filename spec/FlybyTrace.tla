----------------------------- MODULE FlybyTrace -----------------------------
EXTENDS Flyby, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
\* [lo, hi]: the range of a quantity over the sampled units and orientations, in millionths
Is(r, x, tol) == r[1] >= x * 1000000 - tol /\ r[2] <= x * 1000000 + tol
Mod(r, x, tol) == Is(r, x, tol) \/ (x = 0 /\ Is(r, 360, tol))
Speed == E.speed <= 100               \* 10^-15 of the speed
TStart == IsEvent("Start") /\ vel' = [s \in Slots |-> [th |-> 90, k |-> 1]]
TArrive == IsEvent("Arrive") /\ Arrive(E.s, E.th, E.k)
TFly == IsEvent("Fly") /\ Fly(E.s, E.t, E.D, E.away = 1) /\ Is(E.th, Abs(vel'[E.t].th), 1) /\ (vel'[E.t].th \notin {0, 180} => E.side = IF vel'[E.t].th > 0 THEN <<1, 1>> ELSE <<-1, -1>>)
        /\ E.off <= 100000 /\ Speed
TSpin == IsEvent("Spin") /\ Spin(E.s, E.D, E.B) /\ Is(E.turn, E.D, 1) /\ (E.D < 180 => Mod(E.plane, E.B, 1)) /\ Speed
\* arccosines of (anti)parallel pairs cost half of the digits
Sharp(i, o) == IF Between(vel[i], vel[o]) \in {0, 180} THEN 4 ELSE 1
SqDiff(i, o) == Sq(vel[i].k) - Sq(vel[o].k)
TCon == /\ IsEvent("Con") /\ Con(E.i, E.o, E.X)
        /\ Is(E.ineq, Excess(E.i, E.o, E.X), Sharp(E.i, E.o))
        /\ E.eqv[1] >= SqDiff(E.i, E.o) - 1 /\ E.eqv[2] <= SqDiff(E.i, E.o) + 1
        /\ (vel[E.i] = vel[E.o] => E.eqx <= 100)
        /\ Is(E.cost, Max(0, Excess(E.i, E.o, E.X)), IF Excess(E.i, E.o, E.X) <= 1 THEN 4 ELSE Sharp(E.i, E.o))
        /\ E.pl = 1
TReach == /\ IsEvent("Reach") /\ Reach(E.i, E.o, E.X, E.D, E.B) /\ E.bd = BestTurn(E.i, E.o, E.X) /\ (E.ba = 1) = BestAway(E.i, E.o)
          /\ E.closer <= 100 /\ E.best <= 100    \* 10^-9 of the speed
TraceNext == TStart \/ TArrive \/ TFly \/ TSpin \/ TCon \/ TReach
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
