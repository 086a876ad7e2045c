------------------------------ MODULE KeplerGen -----------------------------
(* Behaviours of Kepler for replay in the real code (TLC -simulate).        *)
(* Random choices are bound with \E over a singleton: TLC would evaluate a  *)
(* LET-bound RandomElement anew at each use.                                *)
EXTENDS Kepler, Json, IOUtils
CONSTANTS Depth, OutFile, Grids
VARIABLE hist
genvars == <<orb, k, noise, tang, hist>>

GenInit == Init /\ hist = <<>>
GenStart ==
    /\ hist = <<>>
    /\ \E c \in {RandomElement(Shapes)} :
       \E o \in {RandomElement(Orients)}, u \in {RandomElement(Units)}, f \in {RandomElement({"apse", "free"})},
          t \in {RandomElement(TickOf(c))}, k0 \in {RandomElement(IF c \in Hyp THEN -12..12 ELSE 0..(N-1))} :
          /\ Start(c, o, u, f, t, k0)
          /\ hist' = <<[ev |-> "Start", cls |-> c, ori |-> o, unit |-> u, off |-> f, tick |-> t, k |-> k0]>>
OkDks == {d \in Dks : InRange(k + d)}
GenProp ==
    /\ hist # <<>> /\ Usable # {}
    /\ \E m \in {RandomElement(Usable)}, dk \in {RandomElement(OkDks)} :
          Prop(m, dk) /\ hist' = Append(hist, [ev |-> "Prop", m |-> m, dk |-> dk])
GenVec ==
    /\ hist # <<>> /\ "vec" \in Methods
    /\ \E n \in {RandomElement(0..5)} :
       \E d1 \in {RandomElement(OkDks)}, d2 \in {RandomElement(OkDks)}, d3 \in {RandomElement(OkDks)},
          d4 \in {RandomElement(OkDks)}, d5 \in {RandomElement(OkDks)}, s \in {RandomElement({0, 1})} :
          hist' = Append(hist, [ev |-> "Vec", ds |-> SubSeq(<<d1, d2, d3, d4, d5>>, 1, n), stm |-> s])
    /\ UNCHANGED vars
\* long regular grids: ascending, descending, with repeated and mirrored times
GenRamp ==
    /\ hist # <<>> /\ "vec" \in Methods /\ RandomElement(1..3) = 1
    /\ \E n \in {RandomElement({2, 6, 11, 12, 17, 25, 33})}, st \in {RandomElement({-7, -3, -1, 1, 2, 3, 5, 48})}, d0 \in {RandomElement({0, 1, -1, 4, -9})},
          how \in {RandomElement({"run", "twice", "mirror"})}, s \in {RandomElement({0, 1})} :
       LET ds == [j \in 1..n |-> CASE how = "run" -> d0 + (j - 1) * st
                                  [] how = "twice" -> d0 + ((j - 1) \div 2) * st
                                  [] OTHER -> (IF j % 2 = 0 THEN -1 ELSE 1) * (d0 + ((j - 1) \div 2) * st)]
       IN /\ (\A j \in 1..n : InRange(k + ds[j])) = TRUE
          /\ hist' = Append(hist, [ev |-> "Vec", ds |-> ds, stm |-> s])
    /\ UNCHANGED vars
GenStm ==
    /\ hist # <<>> /\ StmAlgos # {}
    /\ \E a \in {RandomElement(StmAlgos)}, dk \in {RandomElement({d \in OkDks : Abs(d) <= 4 * N})} :
          Stm(a, dk) /\ hist' = Append(hist, [ev |-> "Stm", a |-> a, dk |-> dk])
GenNext == GenStart \/ (Len(hist) < Depth /\ (GenProp \/ GenVec \/ GenRamp \/ GenStm))
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
