------------------------------ MODULE PlotsMC -------------------------------
EXTENDS Plots
CONSTANTS MaxSeg, MaxPoints
Cuts == 0..8
MCNext == \E a \in Slots : Len(axes[a]) < 2 /\
   \/ Draw(a, Sun)
   \/ \E n \in 1..2, c \in {0, 4, 8}, N \in {2}, g, m, p \in BOOLEAN : Draw(a, Leg(n, Forward(n, c), N, g, m, p)) \/ Draw(a, HfLeg(n, Forward(n, c), N, g, p))
   \/ \E n \in 1..2, ids \in {<<>>, <<1>>} : Draw(a, Mga(n, ids, 3))
   \/ \E w \in BOOLEAN : Draw(a, Direct(w, 1, 0, FALSE, FALSE, FALSE))
   \/ \E b \in SUBSET {1, 8} : Draw(a, System(b))
   \/ Fresh(a, <<>>)
MCSpec == Init /\ [][MCNext]_vars
All == \A n \in 1..MaxSeg, c \in Cuts, N \in 2..MaxPoints, g, m, p \in BOOLEAN :
   LET f == Forward(n, c)
       s == Leg(n, f, N, g, m, p)
       h == HfLeg(n, f, N, g, p)
       Of(t, k) == SelectSeq(t, LAMBDA x : x[1] = k)
   IN /\ f \in 0..n /\ (c = 8 => f = n) /\ (c = 0 => f = 0)
      \* every segment has its two halves, once
      /\ \A i \in 1..n, k \in 1..2 : Count(s, <<HALF, i, k, N>>) = 1
      /\ Points(Of(s, HALF)) = 2 * n * N
      \* the middles, the pushes: one for each segment; the grids: one more on each side
      /\ Points(Of(s, MID)) = (IF m THEN n ELSE 0) /\ Points(Of(s, PUSH)) = (IF p THEN n ELSE 0)
      /\ Points(Of(s, GRID)) = (IF g THEN n + 2 ELSE 0)
      /\ Points(Of(h, THRUST)) = n * N /\ Points(Of(h, HFPUSH)) = (IF p THEN n * N ELSE 0) /\ Points(Of(h, HFGRID)) = (IF g THEN n * N ELSE 0)
      /\ \A i \in 1..Len(s) : s[i][4] > 0
ASSUME All
Shown == \A a \in Slots : \A i \in 1..Len(axes[a]) : axes[a][i][4] > 0
Grow == [][\A a \in Slots : axes'[a] = <<>> \/ SubSeq(axes'[a], 1, Len(axes[a])) = axes[a]]_vars
Alone == [][Cardinality({a \in Slots : axes'[a] # axes[a]}) <= 1]_vars
=============================================================================
