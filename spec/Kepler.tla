------------------------------- MODULE Kepler -------------------------------
(***************************************************************************)
(* A craft on a Kepler orbit, seen in the coordinates in which the motion  *)
(* is trivial: the orbit never changes and the mean anomaly, counted in    *)
(* ticks, advances by the number of ticks of the requested time of flight. *)
(* Ellipses have N ticks per revolution; hyperbolae have none.             *)
(*                                                                         *)
(* The first-order neighbourhood of the craft is carried along as an       *)
(* integer 6x6 matrix in the basis (sma, mean longitude, two components of *)
(* the eccentricity vector, two tilts): in these coordinates the tangent   *)
(* map of an arc of d ticks is the identity plus a shear of d units from   *)
(* the semi-major axis into the mean longitude.                            *)
(*                                                                         *)
(* `noise' is the loss of precision admitted so far, relative to a         *)
(* backward-stable computation: errors are compared with it in units of    *)
(* 10^-15 times the condition number of the exact motion.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,          \* ticks per revolution of an ellipse
          KH,         \* hyperbolic arcs stay within -KH..KH ticks
          Methods,    \* propagators in play: subset of {"lag","uni","kep","vec"}
          Algos       \* state-transition-matrix algorithms: subset of {"lagr","reyn"}

Ell == {"circ", "low", "mid", "high", "near"}
Hyp == {"hnear", "hlow", "hmid", "hfast"}
Shapes == Ell \cup Hyp
Orients == {"gen", "flat", "polar", "retro", "aligned"}
Units == {"one", "si", "tiny", "mixed"}
TickOf(cls) == IF cls \in Ell THEN {"turn"} ELSE {"fine", "coarse", "huge"}

VARIABLES orb,   \* [cls, ori, unit, off, tick]
          k,     \* mean anomaly in ticks since the reference pericentre
          noise, \* loss of precision admitted so far
          tang   \* tangent map accumulated over the last arcs flown with their matrix (6x6 integers)

vars == <<orb, k, noise, tang>>

Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

IsHyp == orb.cls \in Hyp
\* element-based propagation goes through arccosines: it may lose half of the digits
Loss(m) == IF m = "kep" THEN 10000000 ELSE 1
\* errors allowed, in units of 10^-15 times the condition number of the exact motion: over the whole history
\* and in a single step (of the element-based propagator: in units of 10^-13). Hyperbolic functions of large arguments lose a few more digits.
GlobalTol == IF ~IsHyp THEN 5000 ELSE IF orb.tick = "huge" THEN 50000 ELSE 2000
LocalTol(m) == IF m = "kep" THEN 50000000 ELSE IF ~IsHyp THEN 20 ELSE IF orb.tick = "huge" THEN 2000 ELSE 100
StmTol(a) == IF a = "reyn" THEN (IF IsHyp THEN 400000 ELSE 20000) ELSE IF IsHyp THEN 4000 ELSE 200

\* classical elements are undefined on equatorial and circular orbits
Usable == Methods \ (IF orb.ori = "flat" \/ orb.cls = "circ" THEN {"vec", "kep"} ELSE {"vec"})
\* Reynolds' closed form divides by quantities that vanish far out on a hyperbola
StmAlgos == Algos \ (IF orb.tick \in {"huge"} THEN {"reyn"} ELSE {})
Phase(kk) == IF IsHyp THEN kk ELSE kk % N
InRange(kk) == ~IsHyp \/ (kk >= -KH /\ kk <= KH)

Id == [i \in 1..6 |-> [j \in 1..6 |-> IF i = j THEN 1 ELSE 0]]
\* rows/columns: 1 sma, 2 mean longitude, 3-4 eccentricity vector, 5-6 tilts
Shear(d) == [i \in 1..6 |-> [j \in 1..6 |-> IF i = j THEN 1 ELSE IF i = 2 /\ j = 1 THEN d ELSE 0]]
Mul(A, B) == [i \in 1..6 |-> [j \in 1..6 |->
               A[i][1]*B[1][j] + A[i][2]*B[2][j] + A[i][3]*B[3][j] + A[i][4]*B[4][j] + A[i][5]*B[5][j] + A[i][6]*B[6][j]]]

DkEll == {0, 1, -1, 5, -7, N \div 4, -(N \div 4), N \div 2, -(N \div 2), N - 1, 1 - N, N, -N, N + 1, -N - 1,
          3*N, -3*N + 2, 10*N + 3, -10*N - 5, 300*N + 11, -300*N - 1}
DkHyp == {0, 1, -1, 2, -2, 5, -5, 9, -9, 17, -17}
Dks == IF IsHyp THEN DkHyp ELSE DkEll

Start(c, o, u, f, t, k0) ==
    /\ orb' = [cls |-> c, ori |-> o, unit |-> u, off |-> f, tick |-> t]
    /\ k' = k0
    /\ noise' = 1
    /\ tang' = Id

\* one propagation: the orbit stays, the phase advances
Prop(m, dk) ==
    /\ m \in Usable
    /\ InRange(k + dk)
    /\ k' = k + dk
    /\ noise' = Max(noise, Loss(m))
    /\ tang' = Id            \* the tangent map is recorded over consecutive arcs flown with their matrix
    /\ UNCHANGED orb

\* vectorised propagation over a grid of times of flight: the craft does not move
Grid(ds) == [j \in 1..Len(ds) |-> Phase(k + ds[j])]

\* propagation with its state transition matrix
Stm(a, dk) ==
    /\ a \in StmAlgos
    /\ InRange(k + dk)
    /\ k' = k + dk
    /\ noise' = noise
    /\ tang' = Mul(Shear(dk), tang)
    /\ UNCHANGED orb

Init == /\ orb = [cls |-> "low", ori |-> "gen", unit |-> "one", off |-> "free", tick |-> "turn"]
        /\ k = 0 /\ noise = 1 /\ tang = Id

----------------------------------------------------------------------------
(* Design-level properties, model checked with small constants. *)
TypeOK == /\ orb.cls \in Shapes /\ k \in Int /\ noise \in {1, Loss("kep")}
\* the tangent map accumulated over any history is the one of the net arc
TangentIsNetShear == tang = Shear(tang[2][1])
Symplectic == \* the tangent map is area preserving: unit determinant of the (sma, longitude) block
    tang[1][1] * tang[2][2] - tang[1][2] * tang[2][1] = 1
\* cropping an arc to one turn first, as implementations do, reaches the same phase
CropSound == \A dk \in DkEll : ~IsHyp => (k + (dk % N)) % N = Phase(k + dk)
OrbitConserved == [][orb' = orb \/ tang' = Id]_vars
=============================================================================
