------------------------------ MODULE MGATrace ------------------------------
EXTENDS MGA, Json, IOUtils
CONSTANT Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
TStart == IsEvent("Start") /\ t0s' = [x \in Lists |-> NoList] /\ seqs' = [x \in Lists |-> NoSeq] /\ probs' = [p \in Probs |-> Stock] /\ ships' = [k \in Ships |-> NoShip]
TT0 == IsEvent("T0") /\ NewT0(E.l, E.lo, E.hi, E.kind)
TSeq == IsEvent("Seq") /\ NewSeq(E.l, E.n, E.sys)
TMake == IsEvent("Make") /\ Make(E.p, E.enc, E.lt, E.ls, E.tofl, E.tofu, E.multi = 1, E.insert = 1) /\ E.out = "ok"
TReady == IsEvent("Ready") /\ (IF E.which = "stock" THEN MakeStock(E.p) ELSE MakeGym(E.p, E.which)) /\ E.out = "ok" /\ E.told = 1
TFault == IsEvent("Fault") /\ Ask /\ E.out = Refusal(E.what)
TCopy == IsEvent("Copy") /\ Copy(E.p, E.q) /\ E.out = "ok"
\* the caller's lists hold what the caller put there, of the types the caller chose
TLook == IsEvent("Look") /\ Ask /\ E.t0 = t0s[E.l] /\ E.n = seqs[E.l].n /\ E.types = 1 /\ E.tofs = 1
TBox == IsEvent("Box") /\ Ask /\ E.lb = Lower(probs[E.p]) /\ E.ub = Upper(probs[E.p]) /\ E.nobj = Objectives(probs[E.p])
\* the recorded genes mean the recorded legs
Means == LET p == probs[E.p] IN p.on /\ Len(E.T) = p.n /\ Whole(p.enc, E.g, E.q, E.total) = TRUE /\ E.T = Decode(p.enc, E.g, E.q, E.total) /\ (p.enc = "eta" => E.total = p.tofu[1])
TCost == IsEvent("Cost") /\ Ask /\ Means /\ E.out = "ok" /\ E.n = Objectives(probs[E.p]) /\ E.err <= Tol /\ E.terr <= Tol /\ E.kept = 1
TShip == IsEvent("Ship") /\ Means /\ Launch(E.p, E.s, E.t8, E.T) /\ E.out = "ok" /\ E.kept = 1
TShort == IsEvent("Short") /\ Ask /\ E.out = "ValueError"
\* (epochs that are not exact: within rounding of an end either answer is right)
Blunt(s, t8) == ~ships[s].exact /\ (t8 = ships[s].ep[Len(ships[s].ep)])
TAsk == IsEvent("Ask") /\ Ask /\ ships[E.s].on /\ LET w == When(E.s, E.t8) IN
          IF w = "ok" THEN (E.out = "ok" /\ E.err <= Tol) \/ (Blunt(E.s, E.t8) /\ E.out = "late")
          ELSE E.out = w
TConv == IsEvent("Conv") /\ Ask /\ LET p == probs[E.p] IN
          IF E.to \in {"d2e", "e2d"} /\ p.enc # "eta" THEN E.out = "ValueError"
          ELSE /\ E.out = "ok" /\ E.err <= Tol /\ E.shape = 1 /\ E.kept = 1
               /\ E.q = EncodeQ(IF E.to \in {"d2e", "e2d"} THEN "eta" ELSE "alpha", E.T, IF p.enc = "eta" THEN p.tofu[1] ELSE 0)
TTell == IsEvent("Tell") /\ Ask /\ Means /\ E.out = "ok" /\ E.err <= Tol
TraceNext == TStart \/ TT0 \/ TSeq \/ TMake \/ TReady \/ TFault \/ TCopy \/ TLook \/ TBox \/ TCost \/ TShip \/ TShort \/ TAsk \/ TConv \/ TTell
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
