----------------------------- MODULE JplLpTrace -----------------------------
EXTENDS JplLp, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
Tol == 300    \* units of 10^-15 times the condition number
TStart == IsEvent("Start") /\ pl' = [s \in Slots |-> 3]
TMake == IsEvent("Make") /\ Make(E.s, E.p) /\ E.out = "ok"
TBad == IsEvent("Bad") /\ Ask /\ E.out = "refused"
TAssign == IsEvent("Assign") /\ Assign(E.s, E.t)
TEph == IsEvent("Eph") /\ Ask /\ E.out \in Eph(E.d, E.j) /\ E.err <= Tol
TEphV == IsEvent("EphV") /\ Ask /\ E.same = 1
TElements == IsEvent("Elements") /\ Asked(pl[E.s], E.el) /\ Ask /\ E.out \in Answer(E.d, E.j, E.el) /\ E.err <= Tol
TPeriod == IsEvent("Period") /\ Ask /\ E.out = "ok" /\ E.err <= Tol
\* own gravity, radius, safe radius, the Sun's gravity; the name
TGet == IsEvent("Get") /\ Ask /\ E.same = 1 /\ E.name = Names[pl[E.s]] \o " - jpl_lp"
TraceNext == TStart \/ TMake \/ TBad \/ TAssign \/ TEph \/ TEphV \/ TElements \/ TPeriod \/ TGet
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
