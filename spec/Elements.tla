------------------------------ MODULE Elements ------------------------------
(***************************************************************************)
(* An orbit and a position on it, held in one of several representations,  *)
(* and the conversions between them as an algebra of integer degrees:      *)
(*   ic   Cartesian state: what can be read off its geometry, namely       *)
(*        <<inclination, node, argument of latitude, true anomaly>>        *)
(*   par  classical elements <<i, W, w, f>>                                *)
(*   eq   equinoctial elements, direct:     <<i, W, w+W, f+w+W>>           *)
(*   eqr  equinoctial elements, retrograde: <<i, W, w-W, f+w-W>>           *)
(* NA marks what a degenerate orbit leaves undefined: the node when it is  *)
(* equatorial (the third entry of ic is then the longitude in the plane),  *)
(* the pericentre when it is circular.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NA == -1000
Ell == {"circ", "round", "low", "mid", "high", "near"}
Hyp == {"hnear", "hlow", "hmid", "hfast"}
Shapes == Ell \cup Hyp
Units == {"one", "si", "tiny", "mixed"}
Reps == {"ic", "par", "eq", "eqr"}

VARIABLES orb,    \* [cls, unit, i, W, w, f, off]: the orbit we started from, in degrees; off = 1: every angle is
                  \* actually a hair away from its value, on either side (so 0 degrees is not quite equatorial)
          rep,    \* representation currently held
          val,    \* its content
          noise   \* loss of precision admitted so far

vars == <<orb, rep, val, noise>>

M360(x) == x % 360
Max(a, b) == IF a > b THEN a ELSE b
IsHyp(c) == c \in Hyp
\* whole degrees strictly inside the asymptotes of every hyperbola of the class
Reach(c) == CASE c = "hnear" -> 165 [] c = "hlow" -> 130 [] c = "hmid" -> 100 [] c = "hfast" -> 92 [] OTHER -> 360
\* whole degrees strictly beyond the asymptotes of every hyperbola of the class
Beyond(c) == CASE c = "hnear" -> 178 [] c = "hlow" -> 170 [] c = "hmid" -> 133 [] c = "hfast" -> 103
Fs(c) == IF c \in Ell THEN 0..359 ELSE {M360(x) : x \in -Reach(c)..Reach(c)}

Flat(o) == o.i \in {0, 180} /\ o.off = 0
Circ(c) == c = "circ"
Regular(o) == ~Flat(o) /\ ~Circ(o.cls)

\* what each representation of an orbit holds
Enc(o, r) ==
    LET u == M360(o.w + o.f)
        lon == IF o.i = 0 THEN M360(o.W + u) ELSE M360(o.W - u)
        peri == IF o.i = 0 THEN M360(o.W + o.w) ELSE M360(o.W - o.w)
        f == IF Circ(o.cls) THEN NA ELSE M360(o.f)
        W == IF Flat(o) THEN NA ELSE M360(o.W)
        s == IF r = "eqr" THEN -1 ELSE 1
    IN CASE r = "ic" -> IF Flat(o) THEN <<o.i, NA, lon, f>> ELSE <<o.i, W, u, f>>
         [] r = "par" -> <<o.i, M360(o.W), M360(o.w), M360(o.f)>>
         [] OTHER -> <<o.i, W, IF Circ(o.cls) THEN NA ELSE M360(o.w + s * o.W), M360(u + s * o.W)>>

\* ---------------------------------------------------------------- conversions
ParToIc(v, c) == Enc([cls |-> c, unit |-> "one", i |-> v[1], W |-> v[2], w |-> v[3], f |-> v[4], off |-> orb.off], "ic")
IcToPar(v) == <<v[1], v[2], M360(v[3] - v[4]), v[4]>>
IcToEq(v, s) ==
    LET flat == v[2] = NA
        \* in the plane the direct longitude is the position's own, the retrograde one runs the other way
        L == IF flat THEN M360(s * v[3]) ELSE M360(v[3] + s * v[2])
    IN <<v[1], v[2], IF v[4] = NA THEN NA ELSE M360(L - v[4]), L>>
EqToIc(v, s) ==
    LET f == IF v[3] = NA THEN NA ELSE M360(v[4] - v[3])
    IN IF v[2] = NA THEN <<v[1], NA, M360(s * v[4]), f>> ELSE <<v[1], v[2], M360(v[4] - s * v[2]), f>>
EqToPar(v, s) == <<v[1], v[2], M360(v[3] - s * v[2]), M360(v[4] - v[3])>>
ParToEq(v, s, c) == <<v[1], IF Flat(orb) THEN NA ELSE M360(v[2]), IF Circ(c) THEN NA ELSE M360(v[3] + s * v[2]),
                      M360(v[4] + v[3] + s * v[2])>>
Sgn(r) == IF r = "eqr" THEN -1 ELSE 1

\* pairs of representations the library converts between directly
Edges == {<<"ic", "par">>, <<"par", "ic">>, <<"ic", "eq">>, <<"eq", "ic">>, <<"ic", "eqr">>, <<"eqr", "ic">>,
          <<"par", "eq">>, <<"eq", "par">>, <<"par", "eqr">>, <<"eqr", "par">>}
\* where the target representation is regular
Fits(o, r) == CASE r = "ic" -> TRUE
                [] r = "par" -> Regular(o)
                [] r = "eq" -> o.i <= 175
                [] r = "eqr" -> o.i >= 5
CanConvert(to) == <<rep, to>> \in Edges /\ Fits(orb, to)
Image(to) ==
    CASE rep = "ic" /\ to = "par" -> IcToPar(val)
      [] rep = "ic" -> IcToEq(val, Sgn(to))
      [] rep = "par" /\ to = "ic" -> ParToIc(val, orb.cls)
      [] rep = "par" -> ParToEq(val, Sgn(to), orb.cls)
      [] to = "ic" -> EqToIc(val, Sgn(rep))
      [] OTHER -> EqToPar(val, Sgn(rep))

\* arccosines at aligned geometries cost half of the digits
Aligned == LET p == Enc(orb, "par") IN \E j \in 1..4 : p[j] % 180 = 0
Loss(to) == IF rep = "ic" /\ to = "par" THEN (IF Aligned THEN 10000000 ELSE 300) ELSE 1
Tol == 100      \* units of 10^-15 times the sensitivity of the target to the source

Start(o, r) == /\ Fits(o, r) /\ orb' = o /\ rep' = r /\ val' = Enc(o, r) /\ noise' = 1
Convert(to) == /\ CanConvert(to)
               /\ rep' = to /\ val' = Image(to) /\ noise' = Max(noise, Loss(to))
               /\ UNCHANGED orb
\* elements that describe no orbit are refused, all others are accepted
Refused(sgnA, c, f) == (sgnA < 0) # IsHyp(c)
                       \/ (IsHyp(c) /\ LET g == M360(f) IN g >= Beyond(c) /\ g <= 360 - Beyond(c))
\* at an angle of exactly zero a returned angle may be either end of [0, 360]
Shown(x) == IF x = 0 THEN {0, 360} ELSE {x}

Init == /\ orb = [cls |-> "low", unit |-> "one", i |-> 45, W |-> 0, w |-> 0, f |-> 0, off |-> 0]
        /\ rep = "par" /\ val = <<45, 0, 0, 0>> /\ noise = 1
----------------------------------------------------------------------------
TypeOK == rep \in Reps /\ Len(val) = 4
\* the diagram commutes: whatever the route, the representation held is that of the original orbit
Commutes == val = Enc(orb, rep)
=============================================================================
