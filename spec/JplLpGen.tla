------------------------------ MODULE JplLpGen ------------------------------
EXTENDS JplLp, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
R(S) == {RandomElement(S)}
OneIn(k) == RandomElement(1..k) = 1
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
Row(p) == Flatten(El[p]) \o Flatten(Dot[p]) \o Flatten(Phys[p]) \o Flatten(Sun)
GenInit == Init /\ hist = <<[ev |-> "Start", row |-> Row(3)]>>
Do(e) == hist' = Append(hist, e)
\* letter case: bit j of c makes letter j a capital
GMake == \E s \in R(Slots), p \in R(Planets), c \in R({0, 1, 1023, RandomElement(0..1023)}) :
           Make(s, p) /\ Do([ev |-> "Make", s |-> s, p |-> p, name |-> Names[p], caps |-> c, row |-> Row(p)])
GBad == \E b \in R(1..Len(BadNames)), c \in R({0, 1, 1023}) : Ask /\ Do([ev |-> "Bad", name |-> BadNames[b], caps |-> c])
GAssign == \E s \in R(Slots), t \in R(Slots) : Assign(s, t) /\ Do([ev |-> "Assign", s |-> s, t |-> t])
Day(h) == LET x == RandomElement(1..10) IN
   IF x = 1 THEN RandomElement({Lo - 1, Lo, Hi - 1, Hi, Hi + 1, Lo - 30000, Hi + 30000}) ELSE IF x = 2 THEN RandomElement({0, -1, 1}) ELSE RandomElement(Lo..(Hi - 1))
Frac(h) == RandomElement({0, 1, 64, 127, RandomElement(0..127)})
Forms == {"mjd", "epoch", "direct"}
GEph == \E s \in R(Slots), d \in {Day(hist)}, j \in {Frac(hist)}, f \in R(Forms) : Ask /\ Do([ev |-> "Eph", s |-> s, d |-> d, j |-> j, form |-> f])
GEphV == \E s \in R(Slots), n \in R(0..4) : \E ds \in {[x \in 1..n |-> RandomElement((Lo + 1)..(Hi - 1))]} : Ask /\ Do([ev |-> "EphV", s |-> s, ds |-> ds])
GElements == \E s \in R(Slots), d \in {Day(hist)}, j \in {Frac(hist)}, f \in R(Forms), el \in R(ElTypes) :
   Asked(pl[s], el) /\ Ask /\ Do([ev |-> "Elements", s |-> s, d |-> d, j |-> j, form |-> f, el |-> el])
GPeriod == \E s \in R(Slots), d \in R((Lo + 1)..(Hi - 1)), f \in R({"mjd", "epoch"}) : Ask /\ Do([ev |-> "Period", s |-> s, d |-> d, form |-> f])
GGet == \E s \in R(Slots) : Ask /\ Do([ev |-> "Get", s |-> s])
GenNext == Len(hist) < Depth /\ (GMake \/ (OneIn(3) /\ GAssign) \/ (OneIn(2) /\ GBad) \/ GEph \/ (OneIn(2) /\ GEphV) \/ GElements \/ (OneIn(3) /\ GPeriod) \/ (OneIn(3) /\ GGet))
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
