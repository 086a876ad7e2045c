--------------------------- MODULE PlanetValueTrace -------------------------
EXTENDS PlanetValue, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
\* after every step every slot answers every query exactly like a planet freshly made of what it should hold
Seen == E.who = sl'
TStart == IsEvent("Start") /\ sl' = [s \in Slots |-> Default] /\ files' = [f \in Files |-> Default] /\ Seen
TMake == IsEvent("Make") /\ Make(E.s, <<E.kind, E.tag>>) /\ Seen
TCopy == IsEvent("Copy") /\ Copy(E.s, E.t) /\ Seen
TMove == IsEvent("Move") /\ Move(E.s, E.t) /\ Seen
TSwap == IsEvent("Swap") /\ Swap(E.s, E.t) /\ Seen
TMutate == IsEvent("Mutate") /\ Mutate(E.s, E.tag) /\ Seen
TExtract == IsEvent("Extract") /\ Extract(E.s, E.kind) /\ (E.found = 1) = Found(E.s, E.kind) /\ Seen
TSave == IsEvent("Save") /\ Save(E.s, E.f) /\ Seen
TLoad == IsEvent("Load") /\ Load(E.f, E.t) /\ Seen
TraceNext == TStart \/ TMake \/ TCopy \/ TMove \/ TSwap \/ TMutate \/ TExtract \/ TSave \/ TLoad
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
