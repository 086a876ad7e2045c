----------------------------- MODULE StarkTrace -----------------------------
EXTENDS Stark, Json, IOUtils
CONSTANTS Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
\* after every step: what every problem and both its integrators report
Seen == E.obs = [s \in Slots |-> Obs(pr'[s])]
TStart == IsEvent("Start") /\ pr' = [s \in Slots |-> Dead] /\ files' = [f \in Files |-> Dead] /\ reg' = [k \in Regs |-> Nothing] /\ Seen
TBuild == IsEvent("Build") /\ Build(E.s, [live |-> TRUE, mu |-> E.c[1], veff |-> E.c[2], tol |-> E.c[3]]) /\ Seen
TMu == IsEvent("SetMu") /\ SetMu(E.s, E.x) /\ Seen
TVeff == IsEvent("SetVeff") /\ SetVeff(E.s, E.x) /\ Seen
TCopy == IsEvent("Copy") /\ Copy(E.s, E.t) /\ Seen
TMove == IsEvent("Move") /\ Move(E.s, E.t) /\ Seen
TSave == IsEvent("Save") /\ Save(E.s, E.f) /\ Seen
TLoad == IsEvent("Load") /\ Load(E.f, E.t) /\ Seen
TTamper == IsEvent("Tamper") /\ Tamper(E.s) /\ Seen
TPlace == IsEvent("Place") /\ Place(E.k, E.o) /\ Seen
TFly == /\ IsEvent("Fly") /\ Fly(E.s, E.k, E.j, E.u, E.dt, E.var = 1)
        /\ E.out = "ok"
        \* the reference flew from the origin, with the settings of the problem, for the net time of the specification
        /\ E.from = reg[E.k].o /\ E.net = reg[E.k].t + E.dt /\ E.set = <<pr[E.s].mu, pr[E.s].veff>>
        /\ E.err <= Tol /\ E.dx <= Tol /\ E.du <= Tol
        /\ E.fresh = 1       \* bit for bit what a problem just built from the same settings answers
        /\ Seen
TDoomed == IsEvent("Doomed") /\ Doomed(E.s, E.why, E.var = 1) /\ E.out = (IF E.why = "never" THEN "refused" ELSE "domain") /\ Seen
TLook == IsEvent("Look") /\ Look(E.s) /\ E.printed = 1 /\ Seen
TraceNext == TStart \/ TBuild \/ TMu \/ TVeff \/ TCopy \/ TMove \/ TSave \/ TLoad \/ TTamper \/ TPlace \/ TFly \/ TDoomed \/ TLook
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
