------------------------- MODULE PlanetDispatchTrace ------------------------
EXTENDS PlanetDispatch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
ToSet(q) == {q[j] : j \in DOMAIN q}
\* errors of the derived quantities in units of 10^-15 times their condition number; classical elements go through
\* arccosines, which lose half of the digits at aligned geometries
Tol(s, el) == IF el \in {"KEP_F", "KEP_M"} THEN (IF pl[s].ori \in {"aligned", "polar"} THEN 1000000000 ELSE 30000) ELSE 100
TStart == IsEvent("Start") /\ pl' = [s \in Slots |-> [type |-> 0, cls |-> "low", ori |-> "gen", unit |-> "one"]]
TMake == IsEvent("Make") /\ Make(E.s, [type |-> E.type, cls |-> E.cls, ori |-> E.ori, unit |-> E.unit])
TAssign == IsEvent("Assign") /\ Assign(E.s, E.t)
TParams == IsEvent("Params") /\ Ask /\ E.out = Params(E.s) /\ E.printed = 1
TEph == IsEvent("Eph") /\ Ask /\ E.same = 1
TEphV == IsEvent("EphV") /\ Ask /\ ToSet(E.out) \subseteq {EphV(E.s)}
TPeriod == IsEvent("Period") /\ Ask /\ ToSet(E.out) \subseteq {Period(E.s)} /\ E.err <= 100
TElements == IsEvent("Elements") /\ Asked(E.s, E.el) /\ Ask /\ ToSet(E.out) \subseteq {Elements(E.s, E.el)} /\ E.err <= Tol(E.s, E.el)
TraceNext == TStart \/ TMake \/ TAssign \/ TParams \/ TEph \/ TEphV \/ TPeriod \/ TElements
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
