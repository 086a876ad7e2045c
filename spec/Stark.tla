-------------------------------- MODULE Stark -------------------------------
(***************************************************************************)
(* Stark problems (two-body motion with a constant inertial thrust) as     *)
(* values with settings, and the states flown with them.                   *)
(*                                                                         *)
(* A register holds a state, known by where it comes from: an origin, the  *)
(* settings and thrust it was flown with, and the net time flown in ticks. *)
(* Flying is a group action: what matters is only the sum of the times     *)
(* flown.  Gravitational parameter, effective velocity, thrust, tolerance  *)
(* and origin are tokens (mu = 0: no gravity; u = 0: no thrust).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlots, NFiles, NRegs, MaxTick
Slots == 1..NSlots
Files == 1..NFiles
Regs == 1..NRegs
VARIABLES pr,      \* pr[s]: the settings of the problem in variable s
          files,
          reg
vars == <<pr, files, reg>>
Default == [live |-> TRUE, mu |-> 900, veff |-> 900, tol |-> 1]
Dead == [Default EXCEPT !.live = FALSE]
Nothing == [o |-> 0, mu |-> 0, veff |-> 0, u |-> 0, t |-> 0]
At(o) == [Nothing EXCEPT !.o = o]
Keep == UNCHANGED <<files, reg>>
Abs(x) == IF x < 0 THEN -x ELSE x
----------------------------------------------------------------------------
Build(s, c) == pr' = [pr EXCEPT ![s] = c] /\ Keep
SetMu(s, x) == pr[s].live /\ pr' = [pr EXCEPT ![s].mu = x] /\ Keep
SetVeff(s, x) == pr[s].live /\ pr' = [pr EXCEPT ![s].veff = x] /\ Keep
Copy(s, t) == pr[s].live /\ pr' = [pr EXCEPT ![t] = pr[s]] /\ Keep
Move(s, t) == pr[s].live /\ s # t /\ pr' = [pr EXCEPT ![t] = pr[s], ![s] = Dead] /\ Keep
Save(s, f) == pr[s].live /\ files' = [files EXCEPT ![f] = pr[s]] /\ UNCHANGED <<pr, reg>>
Load(f, t) == files[f].live /\ pr' = [pr EXCEPT ![t] = files[f]] /\ Keep
Tamper(s) == pr[s].live /\ UNCHANGED vars       \* working on the integrators it hands out
Place(k, o) == reg' = [reg EXCEPT ![k] = At(o)] /\ UNCHANGED <<pr, files>>
\* the same flight goes on
Goes(s, k, u) == /\ pr[s].live /\ reg[k].o # 0
                 /\ reg[k].t = 0 \/ (reg[k].mu = pr[s].mu /\ reg[k].veff = pr[s].veff /\ reg[k].u = u)
Flown(s, k, u, dt) == LET t == reg[k].t + dt IN
                      IF t = 0 THEN At(reg[k].o) ELSE [o |-> reg[k].o, mu |-> pr[s].mu, veff |-> pr[s].veff, u |-> u, t |-> t]
Fly(s, k, j, u, dt, var) == /\ Goes(s, k, u) /\ Abs(reg[k].t + dt) <= MaxTick
                            /\ var => u # 0      \* the thrust magnitude is not differentiable at zero
                            /\ reg' = [reg EXCEPT ![j] = Flown(s, k, u, dt)]
                            /\ UNCHANGED <<pr, files>>
\* no mass; straight into the centre; mass used up on the way; no time to fly to
Dooms == {"massless", "crash", "burn", "never"}
Doomed(s, why, var) == pr[s].live /\ (why = "crash" => pr[s].mu # 0) /\ UNCHANGED vars
Look(s) == pr[s].live /\ UNCHANGED vars
Init == pr = [s \in Slots |-> Dead] /\ files = [f \in Files |-> Dead] /\ reg = [k \in Regs |-> Nothing]
----------------------------------------------------------------------------
Bounded == \A k \in Regs : Abs(reg[k].t) <= MaxTick /\ (reg[k].t = 0 => reg[k] = At(reg[k].o))
OneTarget == [][Cardinality({s \in Slots : pr'[s] # pr[s] /\ pr'[s].live}) <= 1]_vars
\* changing settings moves no state, flying changes no setting
Apart == [][pr' = pr \/ reg' = reg]_vars
Obs(c) == IF c.live THEN <<1, c.mu, c.veff, c.tol>> ELSE <<0>>
=============================================================================
