----------------------------- MODULE DirectGen ------------------------------
EXTENDS Direct, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
R(S) == {RandomElement(S)}
OneIn(k) == RandomElement(1..k) = 1
Xs == 1..4
GenInit == Init /\ hist = <<[ev |-> "Start"]>>
Put(e) == hist' = Append(hist, e)
GMake == \E p \in R(Probs), k \in R(Kinds), n \in R(1..MaxSeg), cut8 \in R(0..8), sys \in R({"sun", "toy"}), body \in R({"kep", "kep", "py", "jpl"}), g \in R(BOOLEAN), how \in R({"pos", "kw"}),
            t0 \in R(-3000..3000), dt \in R(0..500), t1 \in R(1..60), t2 \in R(0..300), m1 \in R(100..900), m2 \in R(0..500), v1 \in R(0..40), v2 \in R(0..16) :
           \E s \in {[id |-> Len(hist), kind |-> k, nseg |-> n, t0 |-> IF k = "points" THEN <<>> ELSE <<t0, t0 + dt>>, tof |-> <<t1, t1 + t2>>, mf |-> <<m1, m1 + m2>>,
                      vinf |-> IF k = "points" THEN <<>> ELSE <<v1, v2>>, grad |-> g]} :
              Make(p, s) /\ Put([ev |-> "Make", p |-> p, sid |-> s.id, kind |-> s.kind, nseg |-> s.nseg, t0 |-> s.t0, tof |-> s.tof, mf |-> s.mf, vinf |-> s.vinf, grad |-> s.grad, cut8 |-> cut8, sys |-> sys, body |-> body, how |-> how])
GDefault == \E p \in R(Probs), k \in R(Kinds) : Make(p, Default(k)) /\ Put([ev |-> "Default", p |-> p, k |-> k])
GCopy == \E p, q \in R(Probs) : Copy(p, q) /\ Put([ev |-> "Copy", p |-> p, q |-> q])
GFit == \E p \in R(Probs), x \in R(Xs), form \in R({"list", "array", "tuple"}) : Ask /\ Put([ev |-> "Fit", p |-> p, x |-> x, form |-> form])
GGrad == \E p \in R(Probs), x \in R(Xs), form \in R({"list", "array", "tuple"}) : Ask /\ Put([ev |-> "Grad", p |-> p, x |-> x, form |-> form])
GSimple == \E p \in R(Probs), e \in R({"Bounds", "Counts", "Sparsity"}) : Ask /\ Put([ev |-> e, p |-> p])
GShow == \E p \in R(Probs), x \in R(Xs), e \in R({"Pretty", "Plot"}) : Ask /\ Put([ev |-> e, p |-> p, x |-> x])
Pick(h) == IF Len(h) < 3 THEN 1 ELSE RandomElement(1..20)
GenNext == Len(hist) < Depth /\ \E k \in {Pick(hist)} :
   \/ k \in 1..4 /\ GMake
   \/ k = 5 /\ GDefault
   \/ k = 6 /\ GCopy
   \/ k \in 7..11 /\ GFit
   \/ k \in 12..15 /\ GGrad
   \/ k \in 16..18 /\ GSimple
   \/ k \in {19, 20} /\ GShow
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
