------------------------------- MODULE HFTrace ------------------------------
EXTENDS HF, Json, IOUtils
CONSTANTS Focus,   \* "mismatch" (C23), "grad" (C25), "value" (C26)
          Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
ToSet(s) == {s[j] : j \in DOMAIN s}
Cfg == [live |-> TRUE, rvs |-> E.c[1], ms |-> E.c[2], thr |-> E.thr, rvf |-> E.c[3], mf |-> E.c[4], tof |-> E.c[5], thrust |-> E.c[6],
        isp |-> E.c[7], mu |-> E.c[8], cut |-> E.c[9], tol |-> E.c[10]]
Part == [rvs |-> E.p[1], ms |-> E.p[2], thr |-> E.thr, rvf |-> E.p[3], mf |-> E.p[4], tof |-> E.p[5]]
\* after every step: what every leg reports, and whether it answers as a leg freshly built from what it reports
Seen == Focus = "value" => (ToSet(E.fresh) \subseteq {1} /\ E.obs = [s \in Slots |-> Obs(legs'[s])])
Answer(ok) == Focus = "value" => E.out = IF ok THEN "ok" ELSE "refused"
TStart == IsEvent("Start") /\ legs' = [s \in Slots |-> Dead] /\ files' = [f \in Files |-> Dead] /\ flights' = <<>>
TBuild == IsEvent("Build") /\ Build(E.s, Cfg, E.extra) /\ Answer(OkAll(Cfg, E.extra)) /\ Seen
TSetAll == IsEvent("SetAll") /\ SetAll(E.s, Cfg, E.extra) /\ Answer(OkAll(Cfg, E.extra)) /\ Seen
TPart == IsEvent("Part") /\ SetPart(E.s, Part, E.extra) /\ Answer(OkPart(Part, E.extra)) /\ Seen
TChrom == IsEvent("Chrom") /\ Chrom(E.s, Part) /\ Seen
          /\ (Focus = "value" => IF OkPart(Part, 0) THEN E.out \in {"ok", "throws"} /\ E.same = 1 ELSE E.out = "refused")
TDefault == IsEvent("Default") /\ BuildDefault(E.s) /\ Seen
TScalar == IsEvent("Scalar") /\ SetScalar(E.s, E.f, E.x) /\ Answer(OkField(E.f, E.x)) /\ Seen
TFree == IsEvent("Free") /\ SetFree(E.s, E.f, E.x) /\ Answer(TRUE) /\ Seen
TEnd == IsEvent("End") /\ SetEnd(E.s, E.start, E.x, E.m) /\ Answer(TRUE) /\ Seen
TCut == IsEvent("Cut") /\ SetCut(E.s, E.x) /\ Answer(OkCut(E.x)) /\ Seen
TThr == IsEvent("Thr") /\ SetThr(E.s, E.thr, E.extra) /\ Answer(OkThr(E.thr, E.extra)) /\ Seen
TRev == IsEvent("Rev") /\ SetThr(E.s, <<>>, 0) /\ Answer(FALSE) /\ Seen
TSelf == IsEvent("Self") /\ SelfThr(E.s) /\ Answer(TRUE) /\ Seen
TFly == IsEvent("Fly") /\ Fly(E.s) /\ E.fw = Fwd(Nseg(legs[E.s]), Nseg(legs[E.s])) /\ Seen
TCopy == IsEvent("Copy") /\ Copy(E.s, E.t) /\ Seen
TMove == IsEvent("Move") /\ Move(E.s, E.t) /\ Seen
TSave == IsEvent("Save") /\ Save(E.s, E.f) /\ Seen
TLoad == IsEvent("Load") /\ Load(E.f, E.t) /\ Seen
Phys(c) ==
  LET n == Nseg(c) f == Nfwd(c) IN
  /\ E.fw = Fwd(n, f) /\ E.bw = Bck(n, f)                       \* the reference flew this timeline
  /\ Focus = "mismatch" =>
       /\ E.use = 1 => (E.mm <= Tol /\ E.dyn <= Tol)
       /\ (E.use = 1 /\ Flown(c)) => E.zero <= Tol
       /\ E.tc <= Tol
       /\ (E.k >= 2 /\ c.tof > 0) =>
            /\ E.rows = [q \in 1..(n * E.k) |-> HistTimes(n, f, E.k)[((q - 1) \div E.k) + 1][((q - 1) % E.k) + 1]]
            /\ E.shape = 1 /\ E.ends = 1
            /\ E.use = 1 => E.row <= Tol
       /\ E.k = 1 => E.shape = 2                                \* refused: two points make a segment
  /\ (Focus = "grad" /\ Smooth(c) /\ c.tof > 0) =>
       /\ E.sizes = 1 /\ E.pure = 1 /\ E.tg <= Tol /\ E.same = 1
       /\ E.use = 1 => (E.finite = 1 /\ E.exact = 1 /\ E.gs <= Tol /\ E.gf <= Tol /\ E.gu <= Tol /\ E.gt <= Tol /\ E.seg <= Tol)
TLook == IsEvent("Look") /\ Look(E.s) /\ Seen /\ ((Focus # "value" /\ Physical(legs[E.s])) => Phys(legs[E.s]))
TraceNext == TStart \/ TBuild \/ TSetAll \/ TPart \/ TChrom \/ TDefault \/ TScalar \/ TFree \/ TEnd \/ TCut \/ TThr \/ TRev \/ TSelf \/ TFly \/ TCopy \/ TMove \/ TSave \/ TLoad \/ TLook
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
