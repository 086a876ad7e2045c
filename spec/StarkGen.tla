------------------------------ MODULE StarkGen ------------------------------
EXTENDS Stark, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
GenInit == \E u \in {"one", "other"} : Init /\ hist = <<[ev |-> "Start", unit |-> u]>>
Do(e) == hist' = Append(hist, e)
R(S) == {RandomElement(S)}
\* (random choices live in operators with an argument: TLC evaluates constant definitions once and for all)
OneIn(k) == RandomElement(1..k) = 1
PickMu(h) == IF OneIn(12) THEN 0 ELSE RandomElement(1..3)
PickTol(h) == IF OneIn(2) THEN 1 ELSE RandomElement(2..4)
GBuild == \E s \in R(Slots), c \in {IF OneIn(6) /\ hist[1].unit = "one" THEN Default ELSE [live |-> TRUE, mu |-> PickMu(hist), veff |-> RandomElement(1..3), tol |-> PickTol(hist)]} :
            Build(s, c) /\ Do([ev |-> "Build", s |-> s, c |-> <<c.mu, c.veff, c.tol>>])
GMu == \E s \in R(Slots), x \in {PickMu(hist)} : SetMu(s, x) /\ Do([ev |-> "SetMu", s |-> s, x |-> x])
GVeff == \E s \in R(Slots), x \in R(1..3) : SetVeff(s, x) /\ Do([ev |-> "SetVeff", s |-> s, x |-> x])
GCopy == \E s \in R(Slots), t \in R(Slots), h \in R({"ctor", "assign"}) : Copy(s, t) /\ Do([ev |-> "Copy", s |-> s, t |-> t, how |-> h])
GMove == \E s \in R(Slots), t \in R(Slots), h \in R({"ctor", "assign"}) : Move(s, t) /\ Do([ev |-> "Move", s |-> s, t |-> t, how |-> h])
GSave == \E s \in R(Slots), f \in R(Files), h \in R({"text", "binary"}) : Save(s, f) /\ Do([ev |-> "Save", s |-> s, f |-> f, how |-> h])
GLoad == \E t \in R(Slots), f \in R(Files), h \in R({"fresh", "over"}) : Load(f, t) /\ Do([ev |-> "Load", f |-> f, t |-> t, how |-> h])
GTamper == \E s \in R(Slots) : Tamper(s) /\ Do([ev |-> "Tamper", s |-> s])
GPlace == \E k \in R(Regs), o \in R(1..5) : Place(k, o) /\ Do([ev |-> "Place", k |-> k, o |-> o])
\* continue with the thrust of the register, if it has one
PickU(k) == IF reg[k].t # 0 THEN reg[k].u ELSE RandomElement(0..4)
GFly == \E s \in R(Slots), k \in R(Regs), j \in R(Regs), v \in R({TRUE, FALSE}) : \E u \in {PickU(k)} :
          \E dt \in {IF reg[k].t # 0 /\ OneIn(4) THEN -reg[k].t ELSE IF OneIn(20) THEN 0 ELSE RandomElement(-8..8)} :
            LET w == v /\ u # 0 IN
            Fly(s, k, j, u, dt, w) /\ Do([ev |-> "Fly", s |-> s, k |-> k, j |-> j, u |-> u, dt |-> dt, var |-> w, rest |-> Flown(s, k, u, dt).t])
GDoomed == \E s \in R(Slots), w \in R(Dooms), v \in R({TRUE, FALSE}) : Doomed(s, w, v) /\ Do([ev |-> "Doomed", s |-> s, why |-> w, var |-> v])
GLook == \E s \in R(Slots) : Look(s) /\ Do([ev |-> "Look", s |-> s])
GenNext == Len(hist) < Depth /\
   IF \A s \in Slots : ~pr[s].live THEN GBuild ELSE IF \A k \in Regs : reg[k].o = 0 THEN GPlace
   ELSE (GBuild \/ GMu \/ GVeff \/ GCopy \/ GMove \/ GSave \/ GLoad \/ GTamper \/ GPlace \/ GFly \/ GDoomed \/ GLook)
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
