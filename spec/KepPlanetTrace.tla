--------------------------- MODULE KepPlanetTrace ---------------------------
EXTENDS KepPlanet, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
ToSet(q) == {q[j] : j \in DOMAIN q}
AlignedP(p) == p.i = 90 \/ \E x \in {p.W, p.w, p.pos, p.W + p.w, p.w + p.pos} : x % 180 = 0
\* units of 10^-15 times the condition number; a state turned into classical elements goes through arccosines
Tol(p, el) == IF p.via = "POSVEL" /\ el \in {"KEP_F", "KEP_M"} THEN (IF AlignedP(p) THEN 1000000000 ELSE 100000) ELSE 300
TStart == IsEvent("Start") /\ pl' = [s \in Slots |-> First]
TMake == /\ IsEvent("Make") /\ Make(E.s, [via |-> E.via, cls |-> E.cls, unit |-> E.unit, i |-> E.i, W |-> E.W, w |-> E.w, pos |-> E.pos, ref |-> E.ref, turn |-> E.turn]) /\ ToSet(E.out) \subseteq {"ok"}
TBad == IsEvent("Bad") /\ Refuse /\ ToSet(E.out) \subseteq {Refusal(E.kind)}
TAssign == IsEvent("Assign") /\ Assign(E.s, E.t)
TEph == /\ IsEvent("Eph") /\ Ask
        /\ ToSet(E.ph) \subseteq {Phase(pl[E.s], E.k)}
        /\ E.err <= 300
TEphV == IsEvent("EphV") /\ Ask /\ E.same = 1
TPeriod == IsEvent("Period") /\ Ask /\ ToSet(E.out) \subseteq {Period(pl[E.s])} /\ E.err <= 300
TElements == /\ IsEvent("Elements") /\ Asked(pl[E.s], E.el) /\ Ask
             /\ ToSet(E.out) \subseteq {Elements(pl[E.s], E.el)}
             /\ ToSet(E.vals) \subseteq {Held(pl[E.s], E.el)}
             /\ E.err <= Tol(pl[E.s], E.el)
TGet == IsEvent("Get") /\ Ask /\ E.same = 1 /\ E.printed = 1
TraceNext == TStart \/ TMake \/ TBad \/ TAssign \/ TEph \/ TEphV \/ TPeriod \/ TElements \/ TGet
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
