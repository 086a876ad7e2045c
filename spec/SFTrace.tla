------------------------------- MODULE SFTrace ------------------------------
EXTENDS SF, Json, IOUtils
CONSTANTS Focus,   \* "valid" (C10), "mismatch" (C11), "grad" (C12), "history" (C13)
          Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
ToSet(s) == {s[j] : j \in DOMAIN s}
Cfg == [live |-> TRUE, rvs |-> E.c[1], ms |-> E.c[2], thr |-> E.thr, rvf |-> E.c[3], mf |-> E.c[4], tof |-> E.c[5], thrust |-> E.c[6],
        isp |-> E.c[7], mu |-> E.c[8], cut |-> E.c[9]]
\* after every step: what every leg reports, and whether it answers as a leg freshly built from what it reports
Seen == /\ Focus = "valid" => E.obs = [s \in Slots |-> Obs(legs'[s])]
        /\ Focus = "history" => (ToSet(E.fresh) \subseteq {1} /\ E.obs = [s \in Slots |-> Obs(legs'[s])])
Answer(ok) == E.out = IF ok THEN "ok" ELSE "refused"
TStart == IsEvent("Start") /\ legs' = [s \in Slots |-> Dead] /\ files' = [f \in Files |-> Dead] /\ flights' = <<>>
TBuild == IsEvent("Build") /\ Build(E.s, Cfg, E.extra) /\ (Focus = "valid" => Answer(OkAll(Cfg, E.extra))) /\ Seen
TSetAll == IsEvent("SetAll") /\ SetAll(E.s, Cfg, E.extra) /\ (Focus = "valid" => Answer(OkAll(Cfg, E.extra))) /\ Seen
TDefault == IsEvent("Default") /\ BuildDefault(E.s) /\ Seen
TScalar == IsEvent("Scalar") /\ SetScalar(E.s, E.f, E.x) /\ (Focus = "valid" => Answer(OkScalar(E.x))) /\ Seen
TFree == IsEvent("Free") /\ SetFree(E.s, E.f, E.x) /\ (Focus = "valid" => Answer(TRUE)) /\ Seen
TCut == IsEvent("Cut") /\ SetCut(E.s, E.x) /\ (Focus = "valid" => Answer(OkCut(E.x))) /\ Seen
TThr == IsEvent("Thr") /\ SetThr(E.s, E.thr, E.extra) /\ (Focus = "valid" => Answer(OkThr(E.thr, E.extra))) /\ Seen
TRev == IsEvent("Rev") /\ SetThr(E.s, <<>>, 0) /\ (Focus = "valid" => Answer(FALSE)) /\ Seen
TSelf == IsEvent("Self") /\ SelfThr(E.s) /\ (Focus = "valid" => Answer(TRUE)) /\ Seen
TFly == IsEvent("Fly") /\ Fly(E.s) /\ Seen
TCopy == IsEvent("Copy") /\ Copy(E.s, E.t) /\ Seen
TMove == IsEvent("Move") /\ Move(E.s, E.t) /\ Seen
TSave == IsEvent("Save") /\ Save(E.s, E.f) /\ Seen
TLoad == IsEvent("Load") /\ Load(E.f, E.t) /\ Seen
Phys(c) == /\ E.fw = Fwd(Nseg(c), Nfwd(c)) /\ E.bw = Bck(Nseg(c), Nfwd(c))   \* the reference flew this timeline
           /\ Focus = "mismatch" => /\ E.use = 1 => E.mm <= Tol
                                    /\ (E.use = 1 /\ Flown(c)) => E.zero <= Tol
                                    /\ E.mass <= Tol
                                    /\ E.tc <= Tol
           /\ Focus = "grad" => /\ E.sizes = 1 /\ E.finite = 1 /\ E.exact = 1 /\ E.pure = 1 /\ E.tg <= Tol
                                /\ E.use = 1 => (E.gs <= Tol /\ E.gf <= Tol /\ E.gu <= Tol /\ E.gt <= Tol)
TLook == IsEvent("Look") /\ Look(E.s) /\ Seen /\ (Physical(legs[E.s]) => Phys(legs[E.s]))
TraceNext == TStart \/ TBuild \/ TSetAll \/ TDefault \/ TScalar \/ TFree \/ TCut \/ TThr \/ TRev \/ TSelf \/ TFly \/ TCopy \/ TMove \/ TSave \/ TLoad \/ TLook
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
