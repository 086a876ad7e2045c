----------------------------- MODULE ElementsGen ----------------------------
(* Chains of conversions and refusals for replay in the real code. *)
EXTENDS Elements, Json, IOUtils
CONSTANTS Depth, OutFile, Through, Bad   \* representations in play; whether ill-posed elements are tried
VARIABLE hist
genvars == <<orb, rep, val, noise, hist>>
GenInit == Init /\ hist = <<>>
Deg(n) == RandomElement({0, 90, 180, 270} \cup {RandomElement(0..359)} \cup (IF n = 1 THEN {45, 30, 210, 300, 1, 359} ELSE {}))
GenStart ==
    /\ hist = <<>>
    /\ \E c \in {RandomElement(Shapes)} :
       \E u \in {RandomElement(Units)}, r \in {RandomElement(Through)},
          i \in {RandomElement({0, 90, 180, 1, 5, 175, 179} \cup {RandomElement(1..179)} \cup {RandomElement(1..179)} \cup {RandomElement(1..179)})},
          W0 \in {Deg(0)}, w0 \in {Deg(1)}, f \in {RandomElement({RandomElement({0, 90} \cup (Fs(c) \cap {180, 270})), RandomElement(Fs(c))})},
          off \in {RandomElement({0, 1})} :
       LET o == [cls |-> c, unit |-> u, i |-> i, W |-> IF i \in {0, 180} /\ off = 0 THEN 0 ELSE W0, w |-> IF Circ(c) THEN 0 ELSE w0,
                 f |-> IF f \in Fs(c) THEN f ELSE 90, off |-> off]
       IN /\ Start(o, r)
          /\ hist' = <<[ev |-> "Start", cls |-> c, unit |-> u, i |-> o.i, W |-> o.W, w |-> o.w, f |-> o.f, off |-> off, rep |-> r]>>
GenConvert ==
    /\ hist # <<>>
    /\ \E to \in Through, a \in {RandomElement(-2..2)}, b \in {RandomElement(-2..2)}, d \in {RandomElement(-2..2)} :
         Convert(to) /\ hist' = Append(hist, [ev |-> "Convert", to |-> to, wind |-> IF rep = "par" THEN <<a, b, d>> ELSE <<0, 0, 0>>])
GenPar2ic ==
    /\ hist # <<>> /\ Bad
    /\ \E c \in {RandomElement(Shapes \ {"circ"})} :
       \E s \in {RandomElement({-1, 1})}, near \in {RandomElement({TRUE, FALSE})}, q \in {RandomElement(-2..2)} :
       \E f \in {IF c \in Ell THEN RandomElement(0..359)
                 ELSE RandomElement(IF near THEN Fs(c) ELSE Beyond(c)..(360 - Beyond(c)))} :
         hist' = Append(hist, [ev |-> "Make", cls |-> c, sgn |-> s, f |-> f + 360 * q])
    /\ UNCHANGED vars
GenNext == GenStart \/ (Len(hist) < Depth /\ (GenConvert \/ GenPar2ic))
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
