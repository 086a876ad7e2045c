------------------------------ MODULE PlotsGen ------------------------------
EXTENDS Plots, Json, IOUtils
CONSTANTS Depth, OutFile, MaxSeg
VARIABLE hist
genvars == <<vars, hist>>
R(S) == {RandomElement(S)}
GenInit == Init /\ hist = <<[ev |-> "Start"]>>
Put(e) == hist' = Append(hist, e)
Ns == 2..9
Segs == 1..MaxSeg
GAxes == \E a \in R(Slots), w \in R(3..9) : Fresh(a, <<>>) /\ Put([ev |-> "Axes", a |-> a, w |-> w])
GSun == \E a \in R(Slots), kw \in R(BOOLEAN) : Draw(a, Sun) /\ Put([ev |-> "Sun", a |-> a, kw |-> kw])
GPlace == \E a \in R(Slots), g \in R(1..9), t8 \in R(-8000..8000), form \in R({"float", "epoch"}), u \in R(0..2) :
             Draw(a, Place(g)) /\ Put([ev |-> "Place", a |-> a, g |-> g, t8 |-> t8, form |-> form, u |-> u])
GOrbit == \E a \in R(Slots), g \in R(1..9), range \in R({"none", "list", "array"}), t8 \in R(-8000..8000), d8 \in R(-4000..4000), N \in R(Ns), u \in R(0..2) :
             Draw(a, Orbit(g, N)) /\ Put([ev |-> "Orbit", a |-> a, g |-> g, range |-> range, t8 |-> t8, d8 |-> d8, n |-> N, u |-> u])
GLambert == \E a \in R(Slots), g \in R(1..1000), sol \in R({0, 0, 0, 1, 2, 3, 7}), N \in R(Ns), u \in R(0..2) :
             Draw(a, Lambert(sol, N)) /\ Put([ev |-> "Lambert", a |-> a, g |-> g, sol |-> sol, n |-> N, u |-> u])
GArc == \E a \in R(Slots), g \in R(1..1000), N \in R(Ns), u \in R(0..2), form \in R({"list", "array", "tuple"}) :
             Draw(a, Arc(N)) /\ Put([ev |-> "Arc", a |-> a, g |-> g, n |-> N, u |-> u, form |-> form])
GLeg == \E a \in R(Slots), g \in R(1..1000), n \in R(Segs), c \in R(0..8), N \in R(Ns), grid, mid, push \in R(BOOLEAN), u \in R(0..2), hf \in R(BOOLEAN) :
             Draw(a, Sun) /\ Put([ev |-> IF hf THEN "Hf" ELSE "Leg", a |-> a, g |-> g, nseg |-> n, cut8 |-> c, n |-> N, grid |-> grid, mid |-> mid, push |-> push, u |-> u])
GMga == \E a \in R(Slots), g \in R(1..1000), n \in R(1..3), some \in R(BOOLEAN), N \in R(Ns), u \in R(0..2), fresh \in R(BOOLEAN) :
         \E ids \in R({<<>>, <<1>>, <<n>>, <<n, 1>>}) :
             Draw(a, Sun) /\ Put([ev |-> "Mga", a |-> a, g |-> g, legs |-> n, ids |-> IF some THEN ids ELSE <<>>, n |-> N, u |-> u, fresh |-> fresh])
GDirect == \E a \in R(Slots), g \in R(1..1000), pl \in R(BOOLEAN), n \in R(Segs), c \in R(0..8), grid, mid, push \in R(BOOLEAN), u \in R(0..2), fresh \in R(BOOLEAN) :
             Draw(a, Sun) /\ Put([ev |-> "Direct", a |-> a, g |-> g, planets |-> pl, nseg |-> n, cut8 |-> c, grid |-> grid, mid |-> mid, push |-> push, u |-> u, fresh |-> fresh])
GSystem == \E a \in R(Slots), b \in R(SUBSET (1..8)), t \in R(-9000..9000), s \in R(BOOLEAN) :
             Draw(a, Sun) /\ Put([ev |-> "System", a |-> a, bodies |-> SelectSeq([i \in 1..8 |-> i], LAMBDA i : i \in b), t |-> t, sizes |-> s])
GTheta == \E g \in R(1..1000), N \in R(1..6), stm \in R({FALSE, FALSE, FALSE, TRUE}) : Look /\ Put([ev |-> "Theta", g |-> g, n |-> N, stm |-> stm])
GLook == \E a \in R(Slots) : Look /\ Put([ev |-> "Look", a |-> a])
GenNext == Len(hist) < Depth /\ \E k \in R(1..24) :
   \/ k \in {1} /\ GAxes
   \/ k = 2 /\ GSun
   \/ k \in {3, 4} /\ GPlace
   \/ k \in {5, 6} /\ GOrbit
   \/ k \in 7..9 /\ GLambert
   \/ k \in 10..11 /\ GArc
   \/ k \in 12..16 /\ GLeg
   \/ k \in 17..18 /\ GMga
   \/ k \in 19..20 /\ GDirect
   \/ k = 21 /\ GSystem
   \/ k \in {22} /\ GTheta
   \/ k \in 23..24 /\ GLook
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
