------------------------------- MODULE EpochMC ------------------------------
(* The closed-form calendar is the calendar one gets by turning the leaves one day at a time; and the algebra of instants. *)
EXTENDS Epoch
CONSTANTS From, To      \* years, counted from 5000 BC (configuration files know no negative numbers)
FirstYear == From - 5000
LastYear == To - 5000
VARIABLES y, m, d, n
mcv == <<vars, y, m, d, n>>
MCInit == Init /\ y = FirstYear /\ m = 1 /\ d = 1 /\ n = DayNumber(FirstYear, 1, 1)
Leaf == /\ y <= LastYear /\ n' = n + 1 /\ UNCHANGED vars
        /\ IF d < DaysIn(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
MCSpec == MCInit /\ [][Leaf]_mcv
Calendar == DayNumber(y, m, d) = n /\ Civil(n) = <<y, m, d>>
Origin == DayNumber(2000, 1, 1) = 0 /\ DayNumber(1970, 1, 1) = -10957 /\ DayNumber(1858, 11, 17) = -51544 /\ DayNumber(-4713, 11, 24) = -2451545
\* a day past the end of the month is the first of the next
Overflow == DayNumber(y, m, DaysIn(y, m) + 1) = (IF m = 12 THEN DayNumber(y + 1, 1, 1) ELSE DayNumber(y, m + 1, 1))
X == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 0, 1>>, <<-1, 86399, 999999>>, <<2, 43200, 500000>>}
Here == Norm(n, (d * 3600) % 86400, (m * 83333) % 1000000)
Algebra == d = 1 => \A a, b \in X : LET c == Plus(Here, a) IN
             /\ Minus(c, a) = Here /\ Minus(c, Here) = a
             /\ Plus(c, b) = Plus(Plus(Here, b), a)
             /\ Less(a, b) <=> Less(Plus(Here, a), Plus(Here, b))
             /\ Plus(Minus(Here, b), Minus(b, a)) = Minus(Here, a)
=============================================================================
