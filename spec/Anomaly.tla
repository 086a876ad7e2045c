------------------------------- MODULE Anomaly ------------------------------
(***************************************************************************)
(* One point on an orbit, named by its eccentric anomaly counted in ticks  *)
(* (ellipses: N ticks a turn; hyperbolae: the hyperbolic anomaly in ticks) *)
(* and held as one of the anomalies. A conversion never moves the point;   *)
(* only whole turns may be dropped. Conversions documented as returning a  *)
(* value in [-pi, pi] do so.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT N
EllK == {"M", "E", "F"}
HypK == {"N", "H", "F", "Z"}
Ell == {"circ", "low", "mid", "high", "near"}
Hyp == {"hnear", "hlow", "hmid", "hfast"}
Shapes == Ell \cup Hyp
\* conversions the library provides
EllFn == {<<"M","E">>, <<"E","M">>, <<"E","F">>, <<"F","E">>, <<"M","F">>, <<"F","M">>}
HypFn == {<<"N","H">>, <<"H","N">>, <<"H","F">>, <<"F","H">>, <<"N","F">>, <<"F","N">>, <<"Z","F">>, <<"F","Z">>}
\* those whose result is documented to lie in [-pi, pi]
Bounded == (EllFn \ {<<"E","M">>}) \cup {<<"H","F">>, <<"N","F">>, <<"Z","F">>, <<"F","Z">>}
VARIABLES cls, kind, pos
vars == <<cls, kind, pos>>

IsHyp(c) == c \in Hyp
Kinds(c) == IF IsHyp(c) THEN HypK ELSE EllK
Fns(c) == IF IsHyp(c) THEN HypFn ELSE EllFn
\* the point on the orbit: hyperbolae are open, ellipses closed
Point(c, p) == IF IsHyp(c) THEN p ELSE p % N
\* which half of the orbit: 1 outbound from pericentre, -1 inbound, 0 at an apse
Half(c, p) == IF IsHyp(c) THEN (IF p > 0 THEN 1 ELSE IF p < 0 THEN -1 ELSE 0)
              ELSE LET q == p % N IN IF q = 0 \/ 2 * q = N THEN 0 ELSE IF 2 * q < N THEN 1 ELSE -1

Start(c, kd, p) == /\ kd \in Kinds(c) /\ cls' = c /\ kind' = kd /\ pos' = p
Convert(to) == /\ <<kind, to>> \in Fns(cls)
               /\ kind' = to
               /\ pos' = Point(cls, pos)     \* known up to whole turns
               /\ UNCHANGED cls
\* a conversion is defined on the side of eccentricity one it belongs to, and nowhere else
Defined(fn, c) == fn \in Fns(c)
Init == cls = "low" /\ kind = "E" /\ pos = 0
Tol == 60       \* in units of the rounding error of the argument carried through the exact conversion
----------------------------------------------------------------------------
TypeOK == kind \in Kinds(cls) /\ pos \in Int
PointKept == [][Point(cls, pos') = Point(cls, pos)]_vars
HalfKept == [][Half(cls, pos') = Half(cls, pos)]_vars
=============================================================================
