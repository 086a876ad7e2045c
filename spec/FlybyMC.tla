------------------------------- MODULE FlybyMC ------------------------------
EXTENDS Flyby
CONSTANT Step
Grid == {x \in -179..180 : x % Step = 0}
Ds == {x \in 1..180 : x % Step = 0}
MCNext == \/ \E s \in Slots, th \in Grid, k \in Speeds : Arrive(s, th, k)
          \/ \E s, t \in Slots, D \in Ds, a \in BOOLEAN : Fly(s, t, D, a)
MCSpec == Init /\ [][MCNext]_vars
TypeOK == \A s \in Slots : vel[s].th \in -179..180 /\ vel[s].k \in Speeds
\* the constraints hold exactly for the pairs a single fly-by within the limit produces (or no fly-by at all)
Produces(i, o, X) == vel[i] = vel[o] \/ \E D \in Ds, a \in BOOLEAN : D <= X /\ vel[o] = [th |-> Turn(vel[i].th, D, a), k |-> vel[i].k]
Exactly == \A i, o \in Slots, X \in Ds : Turnable(vel[i]) => (Feasible(i, o, X) <=> Produces(i, o, X))
\* no fly-by within the limit ends closer in direction than the best one; and that one is closer by its turn
Closest == \A i, o \in Slots, X \in Ds : Turnable(vel[i]) =>
    LET gap(D, a) == Abs(Norm(Turn(vel[i].th, D, a) - vel[o].th))
        D0 == BestTurn(i, o, X)
    IN /\ gap(D0, BestAway(i, o)) = Max(0, Excess(i, o, X))
       /\ \A D \in Ds, a \in BOOLEAN : D <= X => gap(D, a) >= Max(0, Excess(i, o, X))
Symmetric == \A i, o \in Slots, X \in Ds : Excess(i, o, X) = Excess(o, i, X)
\* what one fly-by did the opposite one undoes, unless it carried past the planet's direction
Undo == \A s \in Slots, D \in Ds, a \in BOOLEAN :
    LET v == vel[s] w == Turn(v.th, D, a)
    IN Turnable(v) /\ w \notin {0, 180} /\ (w > 0) = (v.th > 0) => Turn(w, D, ~a) = v.th
\* two fly-bys reach what the sum of their turns allows
Triangle == \A i, o, x \in Slots : Between(vel[i], vel[o]) <= Between(vel[i], vel[x]) + Between(vel[x], vel[o])
=============================================================================
