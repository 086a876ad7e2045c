-------------------------------- MODULE SFGen -------------------------------
EXTENDS SF, Json, IOUtils
\* (every random choice is made in an operator with an argument: TLC evaluates constant definitions once and for all)
CONSTANTS Depth, OutFile, MaxLen,
          Wild      \* how often settings that no leg may hold are tried: 0 never, 1 sometimes
VARIABLE hist
genvars == <<vars, hist>>
GenInit == \E u \in {"one", "other"} : Init /\ hist = <<[ev |-> "Start", unit |-> u]>>
Do(e) == hist' = Append(hist, e)
R(S) == {RandomElement(S)}
BadS == {-1, -2, -3, -4}
Pick(good) == IF Wild = 1 /\ RandomElement(1..6) = 1 THEN RandomElement(BadS \cup {0}) ELSE RandomElement(good)
PickCut(h_) == IF Wild = 1 /\ RandomElement(1..6) = 1 THEN RandomElement({-1, -2, -3, 65, 66}) ELSE RandomElement({0, 64, 32, 16, 48} \cup {RandomElement(0..64)})
PickMass(h_) == IF Wild = 1 /\ RandomElement(1..8) = 1 THEN RandomElement({0, -1}) ELSE RandomElement(1..3)
PickLen(h_) == IF Wild = 1 /\ RandomElement(1..8) = 1 THEN 0 ELSE RandomElement({1, 2, 3} \cup 1..MaxLen)
PickThr(h_) == TLCEval([j \in 1..PickLen(hist) |-> RandomElement({0} \cup 1..9)])
PickExtra(h_) == IF Wild = 1 /\ RandomElement(1..6) = 1 THEN RandomElement({1, 2}) ELSE 0
PickTof(h_) == IF RandomElement(1..12) = 1 THEN 0 ELSE Pick(1..3)
PickThrust(h_) == IF RandomElement(1..12) = 1 THEN 0 ELSE Pick(1..3)
PickCfg(h_) == [live |-> TRUE, rvs |-> RandomElement(1..4), ms |-> PickMass(hist), thr |-> PickThr(hist), rvf |-> RandomElement(1..4), mf |-> PickMass(hist),
            tof |-> PickTof(hist), thrust |-> PickThrust(hist), isp |-> Pick(1..3), mu |-> Pick(1..2), cut |-> PickCut(hist)]
Flat(c) == <<c.rvs, c.ms, c.rvf, c.mf, c.tof, c.thrust, c.isp, c.mu, c.cut>>
GBuild == \E s \in R(Slots), c \in {PickCfg(hist)}, x \in {PickExtra(hist)} : Build(s, c, x) /\ Do([ev |-> "Build", s |-> s, c |-> Flat(c), thr |-> c.thr, extra |-> x])
GDefault == \E s \in R(Slots) : hist[1].unit = "one" /\ BuildDefault(s) /\ Do([ev |-> "Default", s |-> s])
GSetAll == \E s \in R(Slots), c \in {PickCfg(hist)}, x \in {PickExtra(hist)} : SetAll(s, c, x) /\ Do([ev |-> "SetAll", s |-> s, c |-> Flat(c), thr |-> c.thr, extra |-> x])
GScalar == \E s \in R(Slots), f \in R({"tof", "thrust", "isp", "mu"}) : \E x \in {CASE f = "tof" -> PickTof(hist) [] f = "thrust" -> PickThrust(hist) [] f = "isp" -> Pick(1..3) [] OTHER -> Pick(1..2)} :
              SetScalar(s, f, x) /\ Do([ev |-> "Scalar", s |-> s, f |-> f, x |-> x])
GFree == \E s \in R(Slots), f \in R({"rvs", "rvf", "ms", "mf"}) : \E x \in {IF f \in {"ms", "mf"} THEN PickMass(hist) ELSE RandomElement(1..4)} :
              SetFree(s, f, x) /\ Do([ev |-> "Free", s |-> s, f |-> f, x |-> x])
GCut == \E s \in R(Slots), k \in {PickCut(hist)} : SetCut(s, k) /\ Do([ev |-> "Cut", s |-> s, x |-> k])
GThr == \E s \in R(Slots), t \in {PickThr(hist)}, x \in {PickExtra(hist)}, h \in R({"vec", "iter", "sub"}) : SetThr(s, t, x) /\ Do([ev |-> "Thr", s |-> s, thr |-> t, extra |-> x, how |-> h])
GRev == \E s \in R(Slots), t \in {PickThr(hist)} : Wild = 1 /\ SetThr(s, <<>>, 0) /\ Do([ev |-> "Rev", s |-> s, thr |-> t])
GSelf == \E s \in R(Slots) : SelfThr(s) /\ Do([ev |-> "Self", s |-> s])
GFly == \E s \in R(Slots) : Fly(s) /\ LET c == legs[s] IN Do([ev |-> "Fly", s |-> s, ops |-> FlyOps(Nseg(c), Nfwd(c))])
GCopy == \E s \in R(Slots), t \in R(Slots), h \in R({"ctor", "assign"}) : Copy(s, t) /\ Do([ev |-> "Copy", s |-> s, t |-> t, how |-> h])
GMove == \E s \in R(Slots), t \in R(Slots), h \in R({"ctor", "assign"}) : Move(s, t) /\ Do([ev |-> "Move", s |-> s, t |-> t, how |-> h])
GSave == \E s \in R(Slots), f \in R(Files), h \in R({"text", "binary"}) : Save(s, f) /\ Do([ev |-> "Save", s |-> s, f |-> f, how |-> h])
GLoad == \E t \in R(Slots), f \in R(Files), h \in R({"fresh", "over"}) : Load(f, t) /\ Do([ev |-> "Load", f |-> f, t |-> t, how |-> h])
GLook == \E s \in R(Slots) : Look(s) /\ LET c == legs[s] IN
            Do([ev |-> "Look", s |-> s, phys |-> Physical(c), fw |-> Fwd(Nseg(c), Nfwd(c)), bw |-> Bck(Nseg(c), Nfwd(c))])
GenNext == Len(hist) < Depth /\ (GBuild \/ GDefault \/ GSetAll \/ GScalar \/ GFree \/ GCut \/ GThr \/ GRev \/ GSelf \/ GFly \/ GCopy \/ GMove \/ GSave \/ GLoad \/ GLook)
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
