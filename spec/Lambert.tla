------------------------------- MODULE Lambert ------------------------------
(***************************************************************************)
(* A boundary value problem between two places: the arc sweeps `th' ticks  *)
(* (of N a turn) in the chosen direction of motion, and the flight time    *)
(* lies between the fastest `turns'-turn arc and the fastest one with one  *)
(* turn more. Which solutions exist, and in which order they are listed,   *)
(* is a function of that alone. Looking at the same pair of places from    *)
(* the other direction of motion, backwards in time, rotated about z or in *)
(* other units are actions that change the problem in a known way.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, MaxTurns
Ratios == {"equal", "near", "far"}
Planes == {"flat", "inc", "steep"}
Units == {"one", "si", "tiny", "mixed"}
\* where the flight time lies within the range in which `turns' is the largest number of turns
Slow == {"edge", "mid", "brink"}
Fast == {"fast", "hypnear", "par", "ellnear", "mid", "brink"}
Fracs(t) == IF t = 0 THEN Fast ELSE Slow
VARIABLES th,     \* swept angle modulo a turn, ticks, seen along the chosen direction of motion
          dir,    \* direction of motion about +z: 1 or -1
          turns,  \* largest number of whole turns possible in the time of flight, in that direction
          frac,   \* position of the flight time in that range
          lists   \* lists[m]: the list of turns obtained last when at most m turns were allowed (<<>>: not asked)
vars == <<th, dir, turns, frac, lists>>
Min(a, b) == IF a < b THEN a ELSE b
\* turns of each slot: 0, then 1,1, 2,2, ...
Slots(n) == [j \in 1..(2*n + 1) |-> j \div 2]
Listing(m) == Slots(Min(m, turns))
Caps == 0..MaxTurns
None == [m \in Caps |-> <<>>]
Start(t, d, tn, f) == /\ th' = t /\ dir' = d /\ turns' = tn /\ frac' = f /\ lists' = None
\* solve, allowing at most m whole turns
Solve(m) == lists' = [lists EXCEPT ![m] = Listing(m)] /\ UNCHANGED <<th, dir, turns, frac>>
\* the opposite direction of motion between the same places: the rest of the turn is swept, and how many turns fit is another question
SolveOther(m) == UNCHANGED vars
\* run the film backwards: places swap, direction flips, the arcs are the same arcs
Reverse == dir' = -dir /\ UNCHANGED <<th, turns, frac, lists>>
\* turn the scene about z by any angle; scale lengths and times
Spin == UNCHANGED vars
Rescale == UNCHANGED vars
Init == th = N \div 4 /\ dir = 1 /\ turns = 0 /\ frac = "mid" /\ lists = None
\* errors admitted: the state reached by flying each solution, in units of rounding errors carried through the exact motion
TolFly == 400
----------------------------------------------------------------------------
TypeOK == th \in 1..(N-1) /\ dir \in {1, -1} /\ turns \in Nat /\ frac \in Fast \cup Slow
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* allowing fewer turns only truncates
Truncation == \A m, n \in Caps : (m <= n /\ lists[m] # <<>> /\ lists[n] # <<>>) => Prefix(lists[m], lists[n])
\* one solution without turns, two for each number of turns, in order, none twice as far as turns tell
Complete == \A m \in Caps : lists[m] # <<>> =>
    /\ Len(lists[m]) = 2 * Min(m, turns) + 1
    /\ \A k \in 0..turns : Cardinality({j \in DOMAIN lists[m] : lists[m][j] = k}) = (IF k > m THEN 0 ELSE IF k = 0 THEN 1 ELSE 2)
    /\ \A i, j \in DOMAIN lists[m] : i < j => lists[m][i] <= lists[m][j]
Monotone == [][turns' = turns => \A m \in Caps : lists[m] # <<>> => lists'[m] = lists[m] \/ lists' = None]_vars
=============================================================================
