------------------------------ MODULE CR3BPGen ------------------------------
EXTENDS CR3BP, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
GenInit == Init /\ hist = <<[ev |-> "Start"]>>
Do(e) == hist' = Append(hist, e)
R(S) == {RandomElement(S)}
OneIn(k) == RandomElement(1..k) = 1
PickTol(h) == IF OneIn(2) THEN 1 ELSE RandomElement(1..NTols)
GGet == \E s \in R(Slots), k \in R(Kinds), tol \in {PickTol(hist)} : Get(s, k, tol) /\ Do([ev |-> "Get", s |-> s, kind |-> k, tol |-> tol])
GCopy == \E s \in R(Slots), t \in R(Slots), h \in R({"ctor", "assign", "move"}) : Copy(s, t) /\ Do([ev |-> "Copy", s |-> s, t |-> t, how |-> h])
GMu == \E s \in R(Slots), m \in R(0..NMus) : SetMu(s, m) /\ Do([ev |-> "SetMu", s |-> s, m |-> m])
GPlace == \E s \in R(Slots), o \in R(1..NOrigins), c \in {IF OneIn(2) THEN 0 ELSE RandomElement(-9..9)} : Place(s, o, c) /\ Do([ev |-> "Place", s |-> s, o |-> o, c |-> c])
GFly == \E s \in R(Slots), h \in R(Hows) : \E dt \in {IF ta[s].t # 0 /\ OneIn(4) THEN -ta[s].t ELSE IF OneIn(20) THEN 0 ELSE RandomElement(-10..10)} :
          Fly(s, dt) /\ Do([ev |-> "Fly", s |-> s, dt |-> dt, how |-> h])
GLook == \E k \in R({"plain", "var"}), tol \in R(1..NTols) : Look(k, tol) /\ Do([ev |-> "Look", kind |-> k, tol |-> tol])
GenNext == Len(hist) < Depth /\
   IF \A s \in Slots : ~Live(s) THEN GGet ELSE (GGet \/ GCopy \/ GMu \/ GPlace \/ GFly \/ GFly \/ (OneIn(3) /\ GLook))
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
