---------------------------- MODULE DirectTrace -----------------------------
EXTENDS Direct, Json, IOUtils
CONSTANT Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
SetOf(s) == {s[i] : i \in 1..Len(s)}
TStart == IsEvent("Start") /\ probs' = [p \in Probs |-> Default("points")] /\ seen' = {}
TMake == IsEvent("Make") /\ E.out = "ok"
         /\ Make(E.p, [id |-> E.sid, kind |-> E.kind, nseg |-> E.nseg, t0 |-> E.t0, tof |-> E.tof, mf |-> E.mf, vinf |-> E.vinf, grad |-> E.grad = 1])
TDefault == IsEvent("Default") /\ Make(E.p, Default(E.k)) /\ E.out = "ok"
TCopy == IsEvent("Copy") /\ Copy(E.p, E.q) /\ E.out = "ok"
\* objective and constraints: as many as said, each what the leg of these settings gives, scaled
TFit == IsEvent("Fit") /\ E.out = "ok" /\ E.n = Rows(probs[E.p]) /\ E.err <= Tol /\ E.kept = 1 /\ Answer(E.p, "fit", E.x, E.hash)
\* one number for each place of the sparsity, in its order; nothing changes elsewhere
TGrad == IsEvent("Grad") /\ E.out = "ok" /\ E.n = Cardinality(Sparsity(probs[E.p])) /\ E.err <= Tol /\ E.outside <= Tol /\ E.kept = 1 /\ Answer(E.p, "grad", E.x, E.hash)
TBounds == IsEvent("Bounds") /\ Ask /\ E.out = "ok" /\ E.lower = Lower(probs[E.p]) /\ E.upper = Upper(probs[E.p])
TCounts == IsEvent("Counts") /\ Ask /\ E.out = "ok" /\ E.nec = Equalities /\ E.nic = Inequalities(probs[E.p]) /\ (E.grad = 1) = probs[E.p].grad
TSparsity == IsEvent("Sparsity") /\ Ask /\ E.out = "ok" /\ SetOf(E.c) = Sparsity(probs[E.p]) /\ Len(E.c) = Cardinality(Sparsity(probs[E.p]))
TPretty == IsEvent("Pretty") /\ Ask /\ E.out = "ok" /\ E.missing = <<>>
TPlot == IsEvent("Plot") /\ Ask /\ E.out = "ok"
TraceNext == TStart \/ TMake \/ TDefault \/ TCopy \/ TFit \/ TGrad \/ TBounds \/ TCounts \/ TSparsity \/ TPretty \/ TPlot
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
