---------------------------- MODULE PlanetValueGen --------------------------
EXTENDS PlanetValue, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
R(S) == {RandomElement(S)}
OneIn(k) == RandomElement(1..k) = 1
GenInit == Init /\ hist = <<[ev |-> "Start"]>>
Do(e) == hist' = Append(hist, e)
GMake == \E s \in R(Slots), k \in R(Kinds), t \in R(Tags), h \in R({"construct", "assign", "value"}) :
            LET x == IF k = "null" THEN Default ELSE <<k, t>> IN Make(s, x) /\ Do([ev |-> "Make", s |-> s, kind |-> x[1], tag |-> x[2], how |-> h])
GCopy == \E s \in R(Slots), t \in R(Slots), h \in R({"construct", "assign"}) : Copy(s, t) /\ Do([ev |-> "Copy", s |-> s, t |-> t, how |-> h])
GMove == \E s \in R(Slots), t \in R(Slots), h \in R({"construct", "assign"}) : Move(s, t) /\ Do([ev |-> "Move", s |-> s, t |-> t, how |-> h])
GSwap == \E s \in R(Slots), t \in R(Slots) : Swap(s, t) /\ Do([ev |-> "Swap", s |-> s, t |-> t])
GMutate == \E s \in R(Slots), t \in R(Tags) : Mutate(s, t) /\ Do([ev |-> "Mutate", s |-> s, tag |-> t])
GExtract == \E s \in R(Slots), k \in R(Kinds) : Extract(s, k) /\ Do([ev |-> "Extract", s |-> s, kind |-> k])
GSave == \E s \in R(Slots), f \in R(Files), h \in R({"alone", "among"}) : Save(s, f) /\ Do([ev |-> "Save", s |-> s, f |-> f, how |-> h])
GLoad == \E t \in R(Slots), f \in R(Files) : Load(f, t) /\ Do([ev |-> "Load", f |-> f, t |-> t])
GenNext == Len(hist) < Depth /\ (GMake \/ GCopy \/ (OneIn(2) /\ GMove) \/ (OneIn(2) /\ GSwap) \/ GMutate \/ (OneIn(2) /\ GExtract) \/ GSave \/ GLoad)
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
