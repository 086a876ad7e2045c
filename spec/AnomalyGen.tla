------------------------------ MODULE AnomalyGen ----------------------------
EXTENDS Anomaly, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<cls, kind, pos, hist>>
GenInit == Init /\ hist = <<>>
Ticks(c) == IF IsHyp(c) THEN {RandomElement(-40..40), RandomElement({0, 1, -1, 10, -40, 40})}
            ELSE {RandomElement(-N..N), RandomElement(0..(N-1)) + N * RandomElement(-3000..3000),
                  RandomElement({0, N \div 4, N \div 2, -(N \div 2), -(N \div 4), N, 3 * (N \div 4), 1, -1, N * 1000, -7 * N + N \div 2})}
GenStart ==
    /\ hist = <<>>
    /\ \E c \in {RandomElement(Shapes)} :
       \E kd \in {RandomElement(Kinds(c))}, p \in {RandomElement(Ticks(c))} :
         Start(c, kd, p) /\ hist' = <<[ev |-> "Start", cls |-> c, kind |-> kd, pos |-> p]>>
GenConvert == /\ hist # <<>>
              /\ \E to \in EllK \cup HypK : Convert(to) /\ hist' = Append(hist, [ev |-> "Convert", to |-> to])
GenAlien == /\ hist # <<>>
            /\ \E c \in {RandomElement(Shapes)}, fn \in {RandomElement(EllFn \cup HypFn)} :
                 hist' = Append(hist, [ev |-> "Domain", cls |-> c, from |-> fn[1], to |-> fn[2]])
            /\ UNCHANGED vars
\* a run of increasing arguments within one turn
GenRun == /\ hist # <<>>
          /\ \E c \in {RandomElement(Shapes)} : \E fn \in {RandomElement(Fns(c))} :
               hist' = Append(hist, [ev |-> "Run", cls |-> c, from |-> fn[1], to |-> fn[2]])
          /\ UNCHANGED vars
GenNext == GenStart \/ (Len(hist) < Depth /\ (GenConvert \/ GenAlien \/ GenRun))
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
