-------------------------------- MODULE HFGen -------------------------------
EXTENDS HF, Json, IOUtils
\* (every random choice is made in an operator with an argument: TLC evaluates constant definitions once and for all)
CONSTANTS Depth, OutFile, MaxLen,
          Wild,     \* how often settings that no leg may hold are tried: 0 never, 1 sometimes
          Tols,     \* the valid tolerances used
          Smoothly  \* no zero throttles, no zero thrust
VARIABLE hist
genvars == <<vars, hist>>
GenInit == \E u \in 1..3 : Init /\ hist = <<[ev |-> "Start", unit |-> IF u = 1 THEN "other" ELSE "one"]>>
Do(e) == hist' = Append(hist, e)
R(S) == {RandomElement(S)}
BadS == {-1, -2, -3, -4}
Odd(h_, q) == Wild = 1 /\ RandomElement(1..q) = 1
Pick(good) == IF Odd(hist, 6) THEN RandomElement(BadS \cup {0}) ELSE RandomElement(good)
PickCut(h_) == IF Odd(hist, 6) THEN RandomElement({-1, -2, -3, 65, 66}) ELSE RandomElement({0, 64, 32, 16, 48} \cup {RandomElement(0..64)})
PickMass(h_) == IF Odd(hist, 8) THEN RandomElement({0, -1}) ELSE RandomElement(1..3)
PickLen(h_) == IF Odd(hist, 8) THEN 0 ELSE RandomElement({1, 2, 3} \cup 1..MaxLen)
PickTol(h_) == IF Odd(hist, 6) THEN RandomElement({0, 5, -1, -2, -3, -4}) ELSE RandomElement(Tols)
Throttle(h_) == RandomElement(IF Smoothly THEN 1..9 ELSE {0} \cup 1..9)
ThrOf(n) == TLCEval([j \in 1..n |-> Throttle(hist)])
PickThr(h_) == ThrOf(PickLen(hist))
PickExtra(h_) == IF Odd(hist, 6) THEN RandomElement({1, 2}) ELSE 0
PickTof(h_) == IF RandomElement(1..12) = 1 THEN 0 ELSE Pick(1..3)
PickThrust(h_) == IF (~Smoothly) /\ RandomElement(1..12) = 1 THEN 0 ELSE Pick(1..3)
PickCfg(h_) == [live |-> TRUE, rvs |-> RandomElement(1..4), ms |-> PickMass(hist), thr |-> PickThr(hist), rvf |-> RandomElement(1..4), mf |-> PickMass(hist),
            tof |-> PickTof(hist), thrust |-> PickThrust(hist), isp |-> Pick(1..3), mu |-> Pick(1..2), cut |-> PickCut(hist), tol |-> PickTol(hist)]
Line(c) == <<c.rvs, c.ms, c.rvf, c.mf, c.tof, c.thrust, c.isp, c.mu, c.cut, c.tol>>
PickPart(t) == [rvs |-> RandomElement(1..4), ms |-> PickMass(hist), thr |-> t, rvf |-> RandomElement(1..4), mf |-> PickMass(hist), tof |-> PickTof(hist)]
PLine(p) == <<p.rvs, p.ms, p.rvf, p.mf, p.tof>>
Forms == {"rv", "rvm"}
GBuild == \E s \in R(Slots), c \in {PickCfg(hist)}, x \in {PickExtra(hist)}, h \in R(Forms) : Build(s, c, x) /\ Do([ev |-> "Build", s |-> s, c |-> Line(c), thr |-> c.thr, extra |-> x, how |-> h])
GDefault == \E s \in R(Slots) : hist[1].unit = "one" /\ (~Smoothly) /\ BuildDefault(s) /\ Do([ev |-> "Default", s |-> s])
GSetAll == \E s \in R(Slots), c \in {PickCfg(hist)}, x \in {PickExtra(hist)}, h \in R(Forms) : SetAll(s, c, x) /\ Do([ev |-> "SetAll", s |-> s, c |-> Line(c), thr |-> c.thr, extra |-> x, how |-> h])
GPart == \E s \in R(Slots), x \in {PickExtra(hist)} : \E p \in {PickPart(PickThr(hist))} : SetPart(s, p, x) /\ Do([ev |-> "Part", s |-> s, p |-> PLine(p), thr |-> p.thr, extra |-> x])
GChrom == \E s \in R(Slots) : \E p \in {PickPart(ThrOf(Nseg(legs[s])))} : Chrom(s, p) /\ Do([ev |-> "Chrom", s |-> s, p |-> PLine(p), thr |-> p.thr])
GScalar == \E s \in R(Slots), f \in R({"tof", "thrust", "isp", "mu", "tol"}) :
             \E x \in {CASE f = "tof" -> PickTof(hist) [] f = "thrust" -> PickThrust(hist) [] f = "isp" -> Pick(1..3) [] f = "tol" -> PickTol(hist) [] OTHER -> Pick(1..2)} :
              SetScalar(s, f, x) /\ Do([ev |-> "Scalar", s |-> s, f |-> f, x |-> x])
GFree == \E s \in R(Slots), f \in R({"rvs", "rvf", "ms", "mf"}) : \E x \in {IF f \in {"ms", "mf"} THEN PickMass(hist) ELSE RandomElement(1..4)} :
              SetFree(s, f, x) /\ Do([ev |-> "Free", s |-> s, f |-> f, x |-> x])
GEnd == \E s \in R(Slots), b \in R({TRUE, FALSE}), x \in R(1..4), m \in {PickMass(hist)} : SetEnd(s, b, x, m) /\ Do([ev |-> "End", s |-> s, start |-> b, x |-> x, m |-> m])
GCut == \E s \in R(Slots), k \in {PickCut(hist)} : SetCut(s, k) /\ Do([ev |-> "Cut", s |-> s, x |-> k])
GThr == \E s \in R(Slots), t \in {PickThr(hist)}, x \in {PickExtra(hist)}, h \in R({"vec", "iter", "sub"}) : SetThr(s, t, x) /\ Do([ev |-> "Thr", s |-> s, thr |-> t, extra |-> x, how |-> h])
GRev == \E s \in R(Slots), t \in {PickThr(hist)} : Wild = 1 /\ SetThr(s, <<>>, 0) /\ Do([ev |-> "Rev", s |-> s, thr |-> t])
GSelf == \E s \in R(Slots) : SelfThr(s) /\ Do([ev |-> "Self", s |-> s])
GFly == \E s \in R(Slots) : Fly(s) /\ Do([ev |-> "Fly", s |-> s, fw |-> Fwd(Nseg(legs[s]), Nseg(legs[s]))])
GCopy == \E s \in R(Slots), t \in R(Slots), h \in R({"ctor", "assign"}) : Copy(s, t) /\ Do([ev |-> "Copy", s |-> s, t |-> t, how |-> h])
GMove == \E s \in R(Slots), t \in R(Slots), h \in R({"ctor", "assign"}) : Move(s, t) /\ Do([ev |-> "Move", s |-> s, t |-> t, how |-> h])
GSave == \E s \in R(Slots), f \in R(Files), h \in R({"text", "binary"}) : Save(s, f) /\ Do([ev |-> "Save", s |-> s, f |-> f, how |-> h])
GLoad == \E t \in R(Slots), f \in R(Files), h \in R({"fresh", "over"}) : Load(f, t) /\ Do([ev |-> "Load", f |-> f, t |-> t, how |-> h])
\* (the points of the history: 0 for none; a leg of no duration has none; below two they are refused)
GLook == \E s \in R(Slots), k \in R({0, 1} \cup 2..5) : Look(s) /\ LET c == legs[s] n == Nseg(c) f == Nfwd(c) IN
            Do([ev |-> "Look", s |-> s, phys |-> Physical(c), smooth |-> Smooth(c), k |-> k, fw |-> Fwd(n, f), bw |-> Bck(n, f),
                rows |-> IF k < 2 THEN <<>> ELSE TLCEval([q \in 1..(n * k) |-> HistTimes(n, f, k)[((q - 1) \div k) + 1][((q - 1) % k) + 1]])])
GenNext == Len(hist) < Depth /\ (GBuild \/ GDefault \/ GSetAll \/ GPart \/ GChrom \/ GScalar \/ GFree \/ GEnd \/ GCut \/ GThr \/ GRev \/ GSelf \/ GFly \/ GCopy \/ GMove \/ GSave \/ GLoad \/ GLook)
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
