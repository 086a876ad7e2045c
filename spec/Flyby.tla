-------------------------------- MODULE Flyby -------------------------------
(***************************************************************************)
(* Unpowered fly-bys of one planet, seen in the plane of its velocity.     *)
(* A slot holds a relative velocity: th, its direction in whole degrees    *)
(* from the planet's velocity (-179..180), and k, its speed class.         *)
(* A fly-by turns it by D degrees: in the plane, away from the planet's    *)
(* velocity (plane angle 90) or towards it (plane angle 270); off the      *)
(* plane, onto a cone. X is the largest turn the safe radius allows.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlots
Slots == 1..NSlots
Speeds == 1..3
VARIABLES vel
vars == <<vel>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Norm(x) == LET y == x % 360 IN IF y > 180 THEN y - 360 ELSE y
\* squared speed of each class, in millionths of the unit
Sq(k) == CASE k = 1 -> 1000000 [] k = 2 -> 2250000 [] k = 3 -> 160000
\* aligned with the planet's velocity there is no plane to turn in
Turnable(v) == v.th \notin {0, 180}
Away(th, D) == Norm(IF th > 0 THEN th + D ELSE th - D)
Turn(th, D, away) == IF away THEN Away(th, D) ELSE Away(th, -D)
Between(a, b) == Abs(Norm(a.th - b.th))
\* the constraint: how much more than the planet can do is asked for
Excess(i, o, X) == Between(vel[i], vel[o]) - X
Feasible(i, o, X) == vel[i].k = vel[o].k /\ Excess(i, o, X) <= 0
\* the closest a single fly-by gets: turn as far as needed or possible, on the right side
BestTurn(i, o, X) == Min(Between(vel[i], vel[o]), X)
BestAway(i, o) == LET d == Norm(vel[o].th - vel[i].th) IN (d >= 0) = (vel[i].th > 0)
----------------------------------------------------------------------------
Arrive(s, th, k) == vel' = [vel EXCEPT ![s] = [th |-> th, k |-> k]]
Fly(s, t, D, away) == Turnable(vel[s]) /\ D \in 1..180 /\ vel' = [vel EXCEPT ![t] = [th |-> Turn(vel[s].th, D, away), k |-> vel[s].k]]
Spin(s, D, B) == Turnable(vel[s]) /\ UNCHANGED vars
Con(i, o, X) == UNCHANGED vars
Reach(i, o, X, D, B) == Turnable(vel[i]) /\ D <= X /\ UNCHANGED vars
Init == vel = [s \in Slots |-> [th |-> 90, k |-> 1]]
=============================================================================
