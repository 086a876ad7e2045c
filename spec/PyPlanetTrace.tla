---------------------------- MODULE PyPlanetTrace ---------------------------
EXTENDS PyPlanet, Json, IOUtils, SequencesExt
CONSTANT Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
Order == <<"eph", "eph_v", "name", "info", "muc", "mus", "radius", "safe", "period", "elements">>
TStart == IsEvent("Start") /\ cls' = [c \in Classes |-> Plain] /\ objs' = [u \in Objs |-> [c |-> 0, g |-> 0]] /\ held' = {} /\ pls' = [p \in Slots |-> OfLib("null")]
TClass == IsEvent("Class") /\ NewClass(E.c, [m \in Methods |-> E.st[CHOOSE i \in 1..Len(Order) : Order[i] = m]])
TChange == IsEvent("Change") /\ Change(E.c, E.m, E.s)
TNew == IsEvent("New") /\ New(E.u, E.c, E.g)
TDrop == IsEvent("Drop") /\ Drop(E.u)
TPoke == IsEvent("Poke") /\ Poke(E.u, E.g)
TWrap == IsEvent("Wrap") /\ E.out = WrapOut(E.u) /\ Wrap(E.p, E.u)
TLib == IsEvent("Lib") /\ WrapLib(E.p, E.k) /\ E.out = "ok"
TMisuse == IsEvent("Misuse") /\ Ask /\ E.out = (IF E.what \in {"type", "planet"} THEN "TypeError" ELSE "NotImplementedError")
TCopy == IsEvent("Copy") /\ Copy(E.p, E.q) /\ E.out = "ok"
TDeep == IsEvent("Deep") /\ Deep(E.p, E.q, E.u) /\ E.out = "ok"
TPair == IsEvent("Pair") /\ DeepPair(E.p, E.q, E.a, E.b, E.u, E.w) /\ E.out = "ok" /\ E.shared = (IF E.u = E.w THEN 1 ELSE 0)
TGrab == IsEvent("Grab") /\ Grab(E.p)
TClear == IsEvent("Clear") /\ Clear(E.p)
Fine(a) == /\ (IF a.out = {"any"} THEN E.out # "ok" ELSE E.out \in a.out \/ ("any" \in a.out /\ E.out # "ok"))
           /\ (a.mode = "exact" => E.val = a.val)
           /\ (a.mode = "computed" => E.err <= Tol)
           /\ (a.mode = "nan" => E.nan = 1)
\* methods are called with the times asked for, as floats
Times(p) == IF E.what = "eph_v" THEN ToSet(E.ts) ELSE {E.t8}
TAsk == IsEvent("Ask") /\ Ask /\ pls[E.p].kind # "none" /\ Fine(Answer(pls[E.p], E.what, E.t8, E.ts, E.f)) = TRUE /\ ToSet(E.seen) \subseteq Times(E.p) /\ E.shape = 1
TExtract == IsEvent("Extract") /\ Ask /\ E.got = Extract(pls[E.p], E.asked, E.c) /\ E.is = (IF E.got = "it" THEN "yes" ELSE IF E.got = "none" THEN "no" ELSE E.got)
TOsc == IsEvent("Osc") /\ Osculate(E.p, E.q, E.t8, E.mu) /\ E.out \in OscOut(pls[E.p], E.t8, E.mu) \cup (IF "any" \in OscOut(pls[E.p], E.t8, E.mu) /\ E.out # "ok" THEN {E.out} ELSE {})
\* who is alive
TCensus == IsEvent("Census") /\ Ask /\ ToSet(E.alive) = Alive
TraceNext == TStart \/ TClass \/ TChange \/ TNew \/ TDrop \/ TPoke \/ TWrap \/ TLib \/ TMisuse \/ TCopy \/ TDeep \/ TPair \/ TGrab \/ TClear \/ TAsk \/ TExtract \/ TOsc \/ TCensus
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
