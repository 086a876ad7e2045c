----------------------------- MODULE VsopTrace ------------------------------
EXTENDS Vsop, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
Tol == 100    \* 10^-15 of the coordinates
TStart == IsEvent("Start") /\ pl' = [s \in Slots |-> Default]
TMake == IsEvent("Make") /\ Make(E.s, E.p, E.t) /\ E.out = "ok"
TBadName == IsEvent("BadName") /\ Ask /\ E.out = "invalid_argument"
TBadThr == IsEvent("BadThr") /\ Ask /\ E.out = "invalid_argument"
TReset == IsEvent("Reset") /\ Reset(E.s)
TAssign == IsEvent("Assign") /\ Assign(E.s, E.t)
TMove == IsEvent("Move") /\ Move(E.s, E.t)
TArchive == IsEvent("Archive") /\ Archive(E.s, E.t) /\ E.out = "ok"
TEph == IsEvent("Eph") /\ Ask /\ E.err <= Tol /\ E.name = Name(pl[E.s])
TEphV == IsEvent("EphV") /\ Ask /\ E.err <= Tol /\ E.n = Len(E.ds)
TName == IsEvent("Name") /\ Ask /\ E.name = Name(pl[E.s]) /\ E.rest = 1
TCrowd == IsEvent("Crowd") /\ Ask /\ E.err <= Tol /\ E.races = 0 /\ E.failed = 0 /\ E.names = 1
TraceNext == TStart \/ TMake \/ TBadName \/ TBadThr \/ TReset \/ TAssign \/ TMove \/ TArchive \/ TEph \/ TEphV \/ TName \/ TCrowd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
