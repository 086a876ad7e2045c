-------------------------------- MODULE CR3BP -------------------------------
(***************************************************************************)
(* Users' integrators of the circular restricted three-body problem.       *)
(*                                                                         *)
(* An integrator is a value: copies of the cached one (or one built from   *)
(* the exported dynamics) start with mass parameter 0 and every component  *)
(* of the state 1. A state is known by where it comes from: an origin, the *)
(* mass parameter it was flown with and the net time flown, in ticks; the  *)
(* variational integrators also carry the derivative of the state with     *)
(* respect to its origin. The motion is a one-parameter group: only the    *)
(* net time counts, however it was covered. Nothing a user does changes    *)
(* what the library hands out next.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlots, MaxTick, NOrigins, NMus, NTols
Slots == 1..NSlots
Kinds == {"plain", "var", "own"}     \* own: built by the user from the exported dynamics
VARIABLES ta
vars == <<ta>>
Dead == [kind |-> "none", tol |-> 0, mu |-> 0, o |-> 0, t |-> 0, clock |-> 0]
Fresh(k, tol) == [Dead EXCEPT !.kind = k, !.tol = tol]   \* origin 0: all ones
Live(s) == ta[s].kind # "none"
Abs(x) == IF x < 0 THEN -x ELSE x
----------------------------------------------------------------------------
Get(s, k, tol) == ta' = [ta EXCEPT ![s] = Fresh(k, tol)]
Copy(s, t) == Live(s) /\ ta' = [ta EXCEPT ![t] = ta[s]]
\* the mass parameter may change where the state is an origin (afterwards the origin no longer tells where the state is)
SetMu(s, m) == Live(s) /\ ta[s].t = 0 /\ ta' = [ta EXCEPT ![s].mu = m]
Place(s, o, c) == Live(s) /\ ta' = [ta EXCEPT ![s] = [@ EXCEPT !.o = o, !.t = 0, !.clock = c]]
\* how: to a time, for a time, or along a grid of every tick
Hows == {"until", "for", "grid"}
Fly(s, dt) == /\ Live(s) /\ ta[s].o # 0 /\ Abs(ta[s].t + dt) <= MaxTick
              /\ ta' = [ta EXCEPT ![s].t = @ + dt, ![s].clock = @ + dt]
Look(k, tol) == UNCHANGED vars      \* at what the library hands out
Init == ta = [s \in Slots |-> Dead]
----------------------------------------------------------------------------
Bounded == \A s \in Slots : Abs(ta[s].t) <= MaxTick /\ (Live(s) <=> ta[s].tol # 0)
\* a flight moves one integrator, along its own orbit only
Alone == [][\A s \in Slots : (ta'[s].t # ta[s].t /\ ta'[s].o = ta[s].o /\ ta'[s].kind = ta[s].kind /\ ta[s].t # 0 /\ ta'[s].t # 0)
              => Cardinality({r \in Slots : ta'[r] # ta[r]}) = 1]_vars
Obs(x) == IF x.kind = "none" THEN <<0>> ELSE <<1, x.tol, x.mu, x.clock>>
=============================================================================
