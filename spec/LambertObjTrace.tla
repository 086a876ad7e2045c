---------------------------- MODULE LambertObjTrace -------------------------
EXTENDS LambertObj, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
ToSet(s) == {s[j] : j \in DOMAIN s}
\* after every step the harness reports, for every variable, which built problem it is indistinguishable from (0: moved from or unused)
Seen == E.store = [s \in Slots |-> store'[s]]
TStart == IsEvent("Start") /\ store' = [s \in Slots |-> 0] /\ files' = [f \in Files |-> 0] /\ next' = 1
TBuild == /\ IsEvent("Build") /\ Build(E.s, E.tof, E.mu, E.geo)
          /\ E.out = IF WellPosed(E.tof, E.mu, E.geo) THEN "ok" ELSE "domain"
          /\ E.out = "ok" => (E.data = 1 /\ E.sizes = 1)
          /\ Seen
TCopy == IsEvent("Copy") /\ Copy(E.s, E.t) /\ Seen
TMove == IsEvent("Move") /\ Move(E.s, E.t) /\ Seen
TSave == IsEvent("Save") /\ Save(E.s, E.f) /\ Seen
TLoad == IsEvent("Load") /\ Load(E.f, E.t) /\ Seen
TLook == IsEvent("Look") /\ Look(E.s) /\ Seen /\ E.data = 1 /\ E.again = 1
TraceNext == TStart \/ TBuild \/ TCopy \/ TMove \/ TSave \/ TLoad \/ TLook
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
