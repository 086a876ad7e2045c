----------------------------- MODULE CR3BPTrace -----------------------------
EXTENDS CR3BP, Json, IOUtils
CONSTANTS Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
Seen == E.obs = [s \in Slots |-> Obs(ta'[s])]
TStart == IsEvent("Start") /\ ta' = [s \in Slots |-> Dead]
TGet == IsEvent("Get") /\ Get(E.s, E.kind, E.tol) /\ E.pristine = 1 /\ Seen
TCopy == IsEvent("Copy") /\ Copy(E.s, E.t) /\ Seen
TMu == IsEvent("SetMu") /\ SetMu(E.s, E.m) /\ Seen
TPlace == IsEvent("Place") /\ Place(E.s, E.o, E.c) /\ Seen
TFly == /\ IsEvent("Fly") /\ Fly(E.s, E.dt) /\ E.out = "ok"
        \* the reference flew from the origin with the mass parameter, for the net time of the specification
        /\ E.ref = <<ta[E.s].o, ta[E.s].mu, ta[E.s].t + E.dt>>
        /\ E.err <= Tol /\ E.jacobi <= Tol
        /\ (ta[E.s].kind = "var" => E.stm <= Tol)
        /\ E.twin = 1        \* bit for bit what an integrator built from the exported dynamics answers
        /\ Seen
TLook == IsEvent("Look") /\ Look(E.kind, E.tol) /\ E.pristine = 1 /\ Seen
TraceNext == TStart \/ TGet \/ TCopy \/ TMu \/ TPlace \/ TFly \/ TLook
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
