--------------------------------- MODULE SF ---------------------------------
(***************************************************************************)
(* Sims-Flanagan low-thrust legs as values with settings, and the timeline *)
(* of coasts and impulses their mismatch is defined by.                    *)
(*                                                                         *)
(* A setting is a token.  Scalars: 0 is zero, positive tokens are ordinary *)
(* values, negative tokens are values no leg may hold (negative, NaN,      *)
(* -infinity, the smallest negative number).  A throttle is a token too: 0 *)
(* is the zero triplet.  The cut is measured in 1/64ths, tokens outside    *)
(* 0..64 being invalid.  A forward segment count is floor(total * cut).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlots, NFiles
Slots == 1..NSlots
Files == 1..NFiles
VARIABLES legs,    \* legs[s]: settings of the leg in variable s
          files,   \* archives
          flights  \* flights[k]: the settings under which arrival state and mass number 100+k were flown to
vars == <<legs, files, flights>>
Default == [live |-> TRUE, rvs |-> 900, ms |-> 900, thr |-> <<0, 0>>, rvf |-> 900, mf |-> 900, tof |-> 900,
            thrust |-> 900, isp |-> 900, mu |-> 900, cut |-> 32]
Dead == [Default EXCEPT !.live = FALSE]
\* ---- what may be stored
OkScalar(x) == x >= 0
OkCut(k) == k \in 0..64
OkThr(t, extra) == Len(t) > 0 /\ extra = 0
OkAll(c, extra) == OkThr(c.thr, extra) /\ OkScalar(c.tof) /\ OkScalar(c.thrust) /\ OkScalar(c.isp) /\ OkScalar(c.mu) /\ OkCut(c.cut)
Nseg(c) == Len(c.thr)
Nfwd(c) == (Nseg(c) * c.cut) \div 64
Nbck(c) == Nseg(c) - Nfwd(c)
\* ---- the timeline, in half segments.  h > 0: coast h half segments; -i: impulse of throttle i
RECURSIVE FwdOps(_, _)
FwdOps(i, nf) == IF i > nf THEN <<>> ELSE <<-i, IF i = nf THEN 1 ELSE 2>> \o FwdOps(i + 1, nf)
RECURSIVE BckOps(_, _)
BckOps(i, nf) == IF i <= nf THEN <<>> ELSE <<-i, IF i = nf + 1 THEN 1 ELSE 2>> \o BckOps(i - 1, nf)
Fwd(n, nf) == IF nf = 0 THEN <<>> ELSE <<1>> \o FwdOps(1, nf)
Bck(n, nf) == IF nf = n THEN <<>> ELSE <<1>> \o BckOps(n, nf)
\* ---- physics is only asked of legs for which it is defined
Physical(c) == c.live /\ c.isp > 0 /\ c.mu > 0 /\ c.ms > 0 /\ c.mf > 0
\* An impulse is divided by the mass the side it belongs to knows: the mass before it on the forward side, the mass
\* after it on the backward side (written -(1000+i) below).  A flown leg: its arrival is where its departure leads.
FlyOps(n, nf) == IF n = 0 THEN <<>> ELSE
    <<1>> \o [j \in 1..(2 * n) |-> IF j % 2 = 1 THEN LET i == (j + 1) \div 2 IN IF i <= nf THEN -i ELSE -(1000 + i)
                                   ELSE IF j = 2 * n THEN 1 ELSE 2]
Plan(c) == [c EXCEPT !.cut = Nfwd(c), !.rvf = 0, !.mf = 0]
\* without impulses the side does not matter
Ballistic(c) == c.thrust = 0 \/ c.tof = 0 \/ \A j \in DOMAIN c.thr : c.thr[j] = 0
Flown(c) == /\ c.live /\ c.rvf > 1000 /\ c.rvf - 1000 <= Len(flights) /\ c.mf = c.rvf
            /\ LET f == flights[c.rvf - 1000] IN f = Plan(c) \/ (Ballistic(c) /\ [f EXCEPT !.cut = 0] = [Plan(c) EXCEPT !.cut = 0])
----------------------------------------------------------------------------
Keep == UNCHANGED <<files, flights>>
Build(s, c, extra) == /\ IF OkAll(c, extra) THEN legs' = [legs EXCEPT ![s] = c] ELSE UNCHANGED legs
                      /\ Keep
BuildDefault(s) == legs' = [legs EXCEPT ![s] = Default] /\ Keep
SetAll(s, c, extra) == legs[s].live /\ Build(s, c, extra)
SetScalar(s, f, x) == /\ legs[s].live /\ f \in {"tof", "thrust", "isp", "mu"}
                      /\ legs' = IF OkScalar(x) THEN [legs EXCEPT ![s][f] = x] ELSE legs
                      /\ Keep
SetFree(s, f, x) == /\ legs[s].live /\ f \in {"rvs", "rvf", "ms", "mf"}
                    /\ legs' = [legs EXCEPT ![s][f] = x]
                    /\ Keep
SetCut(s, k) == legs[s].live /\ legs' = (IF OkCut(k) THEN [legs EXCEPT ![s].cut = k] ELSE legs) /\ Keep
SetThr(s, t, extra) == legs[s].live /\ legs' = (IF OkThr(t, extra) THEN [legs EXCEPT ![s].thr = t] ELSE legs) /\ Keep
SelfThr(s) == legs[s].live /\ UNCHANGED vars            \* handing a leg its own throttles
Fly(s) == /\ Physical(legs[s]) /\ legs[s].rvs > 0
          /\ flights' = Append(flights, Plan(legs[s]))
          /\ legs' = [legs EXCEPT ![s].rvf = 1000 + Len(flights'), ![s].mf = 1000 + Len(flights')]
          /\ UNCHANGED files
Copy(s, t) == legs[s].live /\ legs' = [legs EXCEPT ![t] = legs[s]] /\ Keep
Move(s, t) == legs[s].live /\ s # t /\ legs' = [legs EXCEPT ![t] = legs[s], ![s] = Dead] /\ Keep
Save(s, f) == legs[s].live /\ files' = [files EXCEPT ![f] = legs[s]] /\ UNCHANGED <<legs, flights>>
Load(f, t) == files[f].live /\ legs' = [legs EXCEPT ![t] = files[f]] /\ Keep
Look(s) == legs[s].live /\ UNCHANGED vars               \* constraints and gradients
Init == legs = [s \in Slots |-> Dead] /\ files = [f \in Files |-> Dead] /\ flights = <<>>
----------------------------------------------------------------------------
Ok(c) == c.live => OkAll(c, 0)
Sound == (\A s \in Slots : Ok(legs[s])) /\ (\A f \in Files : Ok(files[f]))
Counts == \A s \in Slots : LET c == legs[s] IN c.live => Nfwd(c) \in 0..Nseg(c) /\ Nbck(c) >= 0 /\ Nseg(c) >= 1
OneTarget == [][Cardinality({s \in Slots : legs'[s] # legs[s] /\ legs'[s].live}) <= 1]_vars
Obs(c) == IF c.live THEN <<1, c.rvs, c.ms, c.rvf, c.mf, c.tof, c.thrust, c.isp, c.mu, c.cut, Nseg(c), Nfwd(c), Nbck(c)>> \o c.thr ELSE <<0>>
=============================================================================
