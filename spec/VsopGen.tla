------------------------------ MODULE VsopGen -------------------------------
EXTENDS Vsop, Json, IOUtils
CONSTANTS NThreads, Depth, OutFile
VARIABLES hist, few
genvars == <<vars, hist, few>>
R(S) == {RandomElement(S)}
OneIn(k) == RandomElement(1..k) = 1
\* few bodies and thresholds at a time: meetings are likely
GenInit == \E b \in {1, 2, 9}, k \in {1, 2, 6}, off \in 0..8 : Init /\ few = <<b, k, off>> /\ hist = <<[ev |-> "Start"]>>
Body(h) == ((few[3] + RandomElement(1..few[1])) % 9) + 1
Thr(h) == ((few[3] + RandomElement(1..few[2])) % 6) + 1
Put(e) == hist' = Append(hist, e) /\ few' = few
GMake == \E s \in R(Slots), p \in {Body(hist)}, t \in {Thr(hist)}, c \in R(0..4095) : Make(s, p, t) /\ Put([ev |-> "Make", s |-> s, p |-> p, name |-> Names[p], t |-> t, caps |-> c])
GBadName == \E k \in R(1..Len(BadNames)), t \in {Thr(hist)}, c \in R(0..4095) : Ask /\ Put([ev |-> "BadName", name |-> BadNames[k], t |-> t, caps |-> c])
GBadThr == \E b \in R(BadThresholds), p \in {Body(hist)} : Ask /\ Put([ev |-> "BadThr", what |-> b, name |-> Names[p]])
GReset == \E s \in R(Slots) : Reset(s) /\ Put([ev |-> "Reset", s |-> s])
GAssign == \E s, t \in R(Slots) : Assign(s, t) /\ Put([ev |-> "Assign", s |-> s, t |-> t])
GMove == \E s \in R(Slots) : \E t \in R(Slots \ {s}) : Move(s, t) /\ Put([ev |-> "Move", s |-> s, t |-> t])
GArchive == \E s, t \in R(Slots) : Archive(s, t) /\ Put([ev |-> "Archive", s |-> s, t |-> t])
Day(h) == IF OneIn(4) THEN 0 ELSE RandomElement(-36525..36525)
GEph == \E s \in R(Slots), d \in {Day(hist)}, j \in R(0..127), f \in R({"direct", "mjd", "epoch", "planet"}) : Ask /\ Put([ev |-> "Eph", s |-> s, d |-> d, j |-> j, form |-> f])
GEphV == \E s \in R(Slots), n \in R(0..4) : LET ds == [k \in 1..n |-> RandomElement(-20000..20000)] IN Ask /\ Put([ev |-> "EphV", s |-> s, ds |-> ds])
GName == \E s \in R(Slots) : Ask /\ Put([ev |-> "Name", s |-> s])
\* several threads at once, each making bodies and asking them; th, body, threshold, day in turn
GCrowd == \E n \in R(4..12) : LET q == [k \in 1..(4 * n) |-> CASE k % 4 = 1 -> RandomElement(1..NThreads) [] k % 4 = 2 -> Body(k) [] k % 4 = 3 -> Thr(k) [] OTHER -> RandomElement(-9999..9999)] IN
            Ask /\ Put([ev |-> "Crowd", asks |-> q])
Pick(h) == RandomElement(1..14)
GenNext == Len(hist) < Depth /\ \E k \in {Pick(hist)} :
   \/ k \in {1, 2} /\ GMake
   \/ k = 3 /\ GBadName
   \/ k = 4 /\ GBadThr
   \/ k = 5 /\ GReset
   \/ k = 6 /\ GAssign
   \/ k = 7 /\ GMove
   \/ k = 8 /\ GArchive
   \/ k \in {9, 10} /\ GEph
   \/ k = 11 /\ GEphV
   \/ k = 12 /\ GName
   \/ k \in {13, 14} /\ GCrowd
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
