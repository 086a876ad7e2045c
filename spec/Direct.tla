------------------------------- MODULE Direct -------------------------------
(***************************************************************************)
(* Low-thrust transfers as optimisation problems (direct_point2point and   *)
(* direct_pl2pl). A problem is a value: bounds, numbers of constraints,    *)
(* sparsity and the answers to a decision vector depend on its settings    *)
(* and that vector only, never on what was asked before. Vectors have      *)
(* numbers here; an answer is known by a number too.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NProbs, MaxSeg
VARIABLES probs,   \* probs[p]: the settings of a problem
          seen     \* what was answered: set of <<settings, what, x, answer>>
vars == <<probs, seen>>
Probs == 1..NProbs
Kinds == {"points", "planets"}
\* settings: id names all the numbers that have no field of their own; vinf in eighths of km/s
Default(k) == [id |-> 0, kind |-> k, nseg |-> 10, t0 |-> IF k = "points" THEN <<>> ELSE <<6700, 6800>>, tof |-> IF k = "points" THEN <<80, 400>> ELSE <<200, 300>>,
               mf |-> IF k = "points" THEN <<200, 1000>> ELSE <<1300, 1500>>, vinf |-> IF k = "points" THEN <<>> ELSE <<24, 0>>, grad |-> TRUE]
Rep(x, n) == [i \in 1..n |-> x]
Lower(s) == (IF s.kind = "points" THEN <<s.mf[1]>> ELSE <<s.t0[1], s.mf[1]>> \o Rep(-125 * s.vinf[1], 3) \o Rep(-125 * s.vinf[2], 3)) \o Rep(-1, 3 * s.nseg) \o <<s.tof[1]>>
Upper(s) == (IF s.kind = "points" THEN <<s.mf[2]>> ELSE <<s.t0[2], s.mf[2]>> \o Rep(125 * s.vinf[1], 3) \o Rep(125 * s.vinf[2], 3)) \o Rep(1, 3 * s.nseg) \o <<s.tof[2]>>
----------------------------------------------------------------------------
(* The decision vector, by places from 0                                    *)
Dim(s) == IF s.kind = "points" THEN 2 + 3 * s.nseg ELSE 9 + 3 * s.nseg
Mf(s) == IF s.kind = "points" THEN 0 ELSE 1
T0(s) == IF s.kind = "points" THEN {} ELSE {0}
Vs(s) == IF s.kind = "points" THEN {} ELSE {2, 3, 4}
Vf(s) == IF s.kind = "points" THEN {} ELSE {5, 6, 7}
Throttle(s, i) == LET k == Mf(s) + Cardinality(Vs(s) \cup Vf(s)) + 1 + 3 * (i - 1) IN {k, k + 1, k + 2}
Throttles(s) == UNION {Throttle(s, i) : i \in 1..s.nseg}
Tof(s) == Dim(s) - 1
Equalities == 7
Inequalities(s) == s.nseg + (IF s.kind = "points" THEN 0 ELSE 2)
Rows(s) == 1 + Equalities + Inequalities(s)
\* what each row may depend on
Row(s, i) == CASE i = 0 -> {Mf(s)}
               [] i \in 1..6 -> 0..(Dim(s) - 1)
               [] i = 7 -> {Mf(s), Tof(s)} \cup Throttles(s)
               [] i \in 8..(7 + s.nseg) -> Throttle(s, i - 7)
               [] i = 8 + s.nseg -> Vs(s)
               [] OTHER -> Vf(s)
Pattern(s) == {<<i, j>> : i \in 0..(Rows(s) - 1), j \in 0..(Dim(s) - 1)}
Sparsity(s) == {c \in Pattern(s) : c[2] \in Row(s, c[1])}
----------------------------------------------------------------------------
Make(p, s) == probs' = [probs EXCEPT ![p] = s] /\ UNCHANGED seen
Copy(p, q) == probs' = [probs EXCEPT ![q] = probs[p]] /\ UNCHANGED seen
Known(p, what, x) == {e \in seen : e[1] = probs[p] /\ e[2] = what /\ e[3] = x}
Answer(p, what, x, a) == /\ \A e \in Known(p, what, x) : e[4] = a
                         /\ seen' = seen \cup {<<probs[p], what, x, a>>}
                         /\ UNCHANGED probs
Ask == UNCHANGED vars
Init == probs = [p \in Probs |-> Default("points")] /\ seen = {}
=============================================================================
