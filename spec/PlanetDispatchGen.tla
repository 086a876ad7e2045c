-------------------------- MODULE PlanetDispatchGen -------------------------
EXTENDS PlanetDispatch, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
R(S) == {RandomElement(S)}
OneIn(k) == RandomElement(1..k) = 1
GenInit == Init /\ hist = <<[ev |-> "Start"]>>
Do(e) == hist' = Append(hist, e)
GMake == \E s \in R(Slots), t \in R(Types), c \in R(Ell \cup Hyp), o \in R(Oris), u \in R(Units) :
           /\ Make(s, [type |-> t, cls |-> c, ori |-> o, unit |-> u])
           /\ Do([ev |-> "Make", s |-> s, type |-> t, cls |-> c, ori |-> o, unit |-> u])
GAssign == \E s \in R(Slots), t \in R(Slots) : Assign(s, t) /\ Do([ev |-> "Assign", s |-> s, t |-> t])
GParams == \E s \in R(Slots) : Ask /\ Do([ev |-> "Params", s |-> s])
GEph == \E s \in R(Slots), k \in R(-2000..2000), f \in R({"mjd", "epoch"}) : Ask /\ Do([ev |-> "Eph", s |-> s, k |-> k, form |-> f])
GEphV == \E s \in R(Slots), n \in R(0..5) : \E ks \in {[j \in 1..n |-> RandomElement(-2000..2000)]} : Ask /\ Do([ev |-> "EphV", s |-> s, ks |-> ks])
GPeriod == \E s \in R(Slots), k \in R(-2000..2000), f \in R(Forms) : Ask /\ Do([ev |-> "Period", s |-> s, k |-> IF f = "default" THEN 0 ELSE k, form |-> f])
GElements == \E s \in R(Slots), k \in R(-2000..2000), f \in R(Forms), el0 \in R(ElTypes) :
   LET el == IF f = "default" THEN "KEP_F" ELSE el0 IN
   Asked(s, el) /\ Ask /\ Do([ev |-> "Elements", s |-> s, k |-> IF f = "default" THEN 0 ELSE k, form |-> f, el |-> el])
GenNext == Len(hist) < Depth /\ (GMake \/ (OneIn(3) /\ GAssign) \/ GParams \/ GEph \/ GEphV \/ GPeriod \/ GElements)
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
