-------------------------------- MODULE Vsop --------------------------------
(***************************************************************************)
(* The analytical ephemerides of VSOP2013 as a planet's user type: nine    *)
(* bodies, each at any non-negative threshold, are values that can be      *)
(* copied, moved, archived and asked from many threads; the code compiled  *)
(* for one body and threshold is shared behind the scenes, and nobody      *)
(* notices. Coordinates come out of the theory in au and au/day, over      *)
(* thousands of Julian years since J2000, half a day after the origin of   *)
(* the planet's own clock.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlots
VARIABLES pl           \* pl[s] = <<body, threshold>>
vars == <<pl>>
Slots == 1..NSlots
Bodies == 1..9
Names == <<"mercury", "venus", "earth_moon", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto">>
BadNames == <<"earth", "moon", "sun", "earthmoon", "earth_moon_", "merc", "plutoo", "planet", "-">>
\* thresholds, by number: zero, two neighbours, the usual one, and coarse ones
Thresholds == 1..6
Written == <<"0", "1e-09", "1.0000000000000003e-09", "1e-05", "0.001", "2.5">>
BadThresholds == {"nan", "infinite", "minus_infinite", "negative", "tiny_negative"}
Default == <<1, 4>>
Name(b) == "vsop2013 " \o Names[b[1]] \o ", threshold=" \o Written[b[2]]
----------------------------------------------------------------------------
Make(s, p, t) == pl' = [pl EXCEPT ![s] = <<p, t>>]
Reset(s) == pl' = [pl EXCEPT ![s] = Default]
Assign(s, t) == pl' = [pl EXCEPT ![t] = pl[s]]
\* the source of a move may only be given a new value
Move(s, t) == s # t /\ pl' = [pl EXCEPT ![t] = pl[s], ![s] = Default]
Archive(s, t) == Assign(s, t)
Ask == UNCHANGED vars
Init == pl = [s \in Slots |-> Default]
=============================================================================
