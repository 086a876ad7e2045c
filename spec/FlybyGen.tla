------------------------------ MODULE FlybyGen ------------------------------
EXTENDS Flyby, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
R(S) == {RandomElement(S)}
Units == {"one", "si", "tiny", "mixed"}
GenInit == Init /\ \E u \in R(Units) : hist = <<[ev |-> "Start", unit |-> u]>>
Do(e) == hist' = Append(hist, e)
OneIn(k) == RandomElement(1..k) = 1
Th(h) == IF OneIn(3) THEN RandomElement({0, 180, 90, -90, 1, -1, 179, -179, 45}) ELSE RandomElement(-179..180)
D(h) == IF OneIn(4) THEN RandomElement({1, 2, 90, 179, 180, 60}) ELSE RandomElement(1..180)
Beta(h) == IF OneIn(4) THEN RandomElement({0, 90, 180, 270}) ELSE RandomElement(0..359)
\* limits around what is asked for
X(h, i, o) == IF OneIn(2) THEN RandomElement(((1..180) \cap {Between(vel[i], vel[o]) + j : j \in -2..2}) \cup {180})
              ELSE IF OneIn(3) THEN RandomElement({1, 179, 180}) ELSE RandomElement(1..180)
GArrive == \E s \in R(Slots), th \in {Th(hist)}, k \in {IF OneIn(2) THEN 1 ELSE RandomElement(Speeds)} : Arrive(s, th, k) /\ Do([ev |-> "Arrive", s |-> s, th |-> th, k |-> k])
\* the reverse or the same of another slot: exactly (anti)parallel pairs
GAlign == \E s \in R(Slots), t \in R(Slots), g \in R({0, 180}), k \in R(Speeds) : LET th == Norm(vel[s].th + g) IN Arrive(t, th, k) /\ Do([ev |-> "Arrive", s |-> t, th |-> th, k |-> k])
GFly == \E s \in R(Slots), t \in R(Slots), d \in {D(hist)}, a \in R(BOOLEAN) : Fly(s, t, d, a) /\ Do([ev |-> "Fly", s |-> s, t |-> t, D |-> d, away |-> a])
GSpin == \E s \in R(Slots), d \in {D(hist)}, b \in {Beta(hist)} : Spin(s, d, b) /\ Do([ev |-> "Spin", s |-> s, D |-> d, B |-> b])
GCon == \E i \in R(Slots), o \in R(Slots) : \E x \in {X(hist, i, o)} : Con(i, o, x) /\ Do([ev |-> "Con", i |-> i, o |-> o, X |-> x])
GReach == \E i \in R(Slots), o \in R(Slots) : Turnable(vel[i]) /\ \E x \in {X(hist, i, o)} : \E d \in R(1..x), b \in {Beta(hist)} :
            Reach(i, o, x, d, b) /\ Do([ev |-> "Reach", i |-> i, o |-> o, X |-> x, D |-> d, B |-> b, bd |-> BestTurn(i, o, x), ba |-> BestAway(i, o)])
GenNext == Len(hist) < Depth /\ (GArrive \/ GAlign \/ GFly \/ GSpin \/ GCon \/ GReach)
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
