------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* What is drawn on three-dimensional axes (pykep.plot, and the plots of   *)
(* trajopt's problems). Axes only ever gain curves; a request adds the     *)
(* curves its arguments call for, or fails and adds none. A curve is       *)
(* <<what, of which, which part, number of points>>; which points those    *)
(* are is for the instrument that looks at the axes to recognise.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NAxes
VARIABLE axes   \* axes[a]: sequence of curves
vars == axes
Slots == 1..NAxes
SUN == 0  PLACE == 1  ORBIT == 2  LAMBERT == 3  ARC == 4  HALF == 5  GRID == 6  MID == 7  PUSH == 8
THRUST == 9  HFPUSH == 10  HFTIPS == 11  HFGRID == 12  END == 13
If(c, s) == IF c THEN s ELSE <<>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Each(n, F(_)) == Flat([i \in 1..n |-> F(i)])
Drawn(s) == SelectSeq(s, LAMBDA c : c[4] > 0)   \* curves without points do not show
----------------------------------------------------------------------------
(* The requests                                                             *)
Sun == <<<<SUN, 0, 0, 1>>>>
Place(p) == <<<<PLACE, p, 0, 1>>>>
Orbit(p, N) == <<<<ORBIT, p, 0, N>>>>
Lambert(i, N) == <<<<LAMBERT, i, 0, N>>>>
Arc(N) == <<<<ARC, 0, 0, N>>>>
\* segments forward from departure, the others backward from arrival: a half before the push and a half after it, each
Forward(n, cut8) == (n * cut8) \div 8
Leg(n, f, N, grid, mid, push) ==
   Drawn(Each(n, LAMBDA s : <<<<HALF, s, 1, N>>, <<HALF, s, 2, N>>>>)
         \o If(grid, <<<<GRID, 0, 0, f + 1>>, <<GRID, 1, 0, n - f + 1>>>>)
         \o If(mid, <<<<MID, 0, 0, f>>, <<MID, 1, 0, n - f>>>>)
         \o If(push, <<<<PUSH, 0, 0, f>>, <<PUSH, 1, 0, n - f>>>>))
HfLeg(n, f, N, grid, push) ==
   Drawn(<<<<THRUST, 0, 0, f * N>>, <<THRUST, 1, 0, (n - f) * N>>>>
         \o If(push, Each(n, LAMBDA s : <<<<HFPUSH, s, 0, N>>, <<HFTIPS, s, 0, N>>>>))
         \o If(grid, <<<<HFGRID, 0, 0, f * N>>, <<HFGRID, 1, 0, (n - f) * N>>>>))
\* encounters are numbered from 1; ids select legs, none of them selects all
Mga(n, ids, N) == Each(n + 1, LAMBDA i : Place(i) \o Orbit(i, N)) \o Sun
                  \o (IF ids = <<>> THEN Each(n, LAMBDA i : Lambert(i, N)) ELSE Each(Len(ids), LAMBDA i : Lambert(ids[i], N)))
Direct(planets, n, f, grid, mid, push) ==
   <<<<END, 0, 0, 1>>, <<END, 1, 0, 1>>>> \o If(planets, Place(1) \o Orbit(1, 60) \o Place(2) \o Orbit(2, 60)) \o Leg(n, f, 10, grid, mid, push)
System(bodies) == Sun \o Each(8, LAMBDA b : If(b \in bodies, Place(b) \o Orbit(b, 60)))
----------------------------------------------------------------------------
Draw(a, curves) == axes' = [axes EXCEPT ![a] = @ \o curves]
Fresh(a, curves) == axes' = [axes EXCEPT ![a] = curves]
Look == UNCHANGED axes
Init == axes = [a \in Slots |-> <<>>]
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
Same(s, t) == /\ Len(s) = Len(t)
              /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
Points(s) == Sum([i \in 1..Len(s) |-> s[i][4]])
=============================================================================
