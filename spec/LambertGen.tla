------------------------------ MODULE LambertGen ----------------------------
EXTENDS Lambert, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
GenInit == Init /\ hist = <<>>
GenStart ==
    /\ hist = <<>>
    /\ \E t \in {RandomElement({x \in 1..(N-1) : 2 * x # N})}, d \in {RandomElement({1, -1})},
          tn \in {RandomElement({0, 0, 1, 2, 3, MaxTurns - 1, MaxTurns + 3})} :
       \E f \in {RandomElement(Fracs(tn))}, ra \in {RandomElement(Ratios)}, pl \in {RandomElement(Planes)}, u \in {RandomElement(Units)} :
         /\ Start(t, d, tn, f)
         /\ hist' = <<[ev |-> "Start", th |-> t, dir |-> d, turns |-> tn, frac |-> f, ratio |-> ra, plane |-> pl, unit |-> u]>>
GenSolve == hist # <<>> /\ \E m \in {RandomElement({0, 1, 1, 2, 3, MaxTurns})} : Solve(m) /\ hist' = Append(hist, [ev |-> "Solve", m |-> m])
GenOther == hist # <<>> /\ \E m \in {RandomElement({0, 1, 2, MaxTurns})} : SolveOther(m) /\ hist' = Append(hist, [ev |-> "Other", m |-> m])
GenRev == hist # <<>> /\ Reverse /\ hist' = Append(hist, [ev |-> "Reverse"])
GenSpin == hist # <<>> /\ Spin /\ hist' = Append(hist, [ev |-> "Spin"])
GenScale == hist # <<>> /\ Rescale /\ \E u \in {RandomElement(Units)} : hist' = Append(hist, [ev |-> "Rescale", unit |-> u])
GenNext == GenStart \/ (Len(hist) < Depth /\ (GenSolve \/ GenOther \/ GenRev \/ GenSpin \/ GenScale))
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
