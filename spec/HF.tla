--------------------------------- MODULE HF ---------------------------------
(***************************************************************************)
(* High-fidelity Sims-Flanagan legs: values with settings (tokens, as in   *)
(* module SF) whose thrust acts continuously along every segment, flown by *)
(* Taylor integrators of a requested tolerance.                            *)
(*                                                                         *)
(* Tolerance tokens: 1 the default 1e-16, 2 and 3 looser ones, 4 the       *)
(* largest allowed; zero and below, and above 4, are refused.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlots, NFiles
Slots == 1..NSlots
Files == 1..NFiles
VARIABLES legs, files, flights
vars == <<legs, files, flights>>
Default == [live |-> TRUE, rvs |-> 900, ms |-> 900, thr |-> <<0, 0>>, rvf |-> 900, mf |-> 900, tof |-> 900,
            thrust |-> 900, isp |-> 900, mu |-> 900, cut |-> 32, tol |-> 1]
Dead == [Default EXCEPT !.live = FALSE]
\* ---- what may be stored
OkScalar(x) == x >= 0
OkTol(x) == x \in 1..4
OkCut(k) == k \in 0..64
OkThr(t, extra) == Len(t) > 0 /\ extra = 0
OkField(f, x) == IF f = "tol" THEN OkTol(x) ELSE OkScalar(x)
OkAll(c, extra) == /\ OkThr(c.thr, extra) /\ OkScalar(c.tof) /\ OkScalar(c.thrust) /\ OkScalar(c.isp) /\ OkScalar(c.mu)
                   /\ OkCut(c.cut) /\ OkTol(c.tol)
OkPart(p, extra) == OkThr(p.thr, extra) /\ OkScalar(p.tof)
Nseg(c) == Len(c.thr)
Nfwd(c) == (Nseg(c) * c.cut) \div 64
Nbck(c) == Nseg(c) - Nfwd(c)
\* ---- the timeline: the segments flown from the departure, in order, and those flown back from the arrival, in order
Fwd(n, nf) == [i \in 1..nf |-> i]
Bck(n, nf) == [i \in 1..(n - nf) |-> n + 1 - i]
\* ---- the rows of a state history with k points per segment: instants in units of a segment over k-1, one list per segment
HistTimes(n, nf, k) == [i \in 1..n |-> [j \in 1..k |-> IF i <= nf THEN (i - 1) * (k - 1) + j - 1 ELSE i * (k - 1) - (j - 1)]]
Physical(c) == c.live /\ c.isp > 0 /\ c.mu > 0 /\ c.ms > 0 /\ c.mf > 0
\* the derivative of the thrust magnitude exists
Smooth(c) == Physical(c) /\ c.thrust > 0 /\ \A j \in DOMAIN c.thr : c.thr[j] # 0
\* A flown leg: its arrival is where its departure leads, whatever the cut
Plan(c) == [c EXCEPT !.cut = 0, !.rvf = 0, !.mf = 0, !.tol = 0]
Flown(c) == c.live /\ c.rvf > 1000 /\ c.rvf - 1000 <= Len(flights) /\ c.mf = c.rvf /\ flights[c.rvf - 1000] = Plan(c)
----------------------------------------------------------------------------
Keep == UNCHANGED <<files, flights>>
Build(s, c, extra) == /\ legs' = IF OkAll(c, extra) THEN [legs EXCEPT ![s] = c] ELSE legs
                      /\ Keep
BuildDefault(s) == legs' = [legs EXCEPT ![s] = Default] /\ Keep
SetAll(s, c, extra) == legs[s].live /\ Build(s, c, extra)
\* departure, throttles, arrival and time of flight in one go: also what a decision vector does
With(c, p) == [c EXCEPT !.rvs = p.rvs, !.ms = p.ms, !.thr = p.thr, !.rvf = p.rvf, !.mf = p.mf, !.tof = p.tof]
SetPart(s, p, extra) == /\ legs[s].live
                        /\ legs' = IF OkPart(p, extra) THEN [legs EXCEPT ![s] = With(@, p)] ELSE legs
                        /\ Keep
Chrom(s, p) == legs[s].live /\ Len(p.thr) = Nseg(legs[s]) /\ SetPart(s, p, 0)
SetScalar(s, f, x) == /\ legs[s].live /\ f \in {"tof", "thrust", "isp", "mu", "tol"}
                      /\ legs' = IF OkField(f, x) THEN [legs EXCEPT ![s][f] = x] ELSE legs
                      /\ Keep
SetFree(s, f, x) == /\ legs[s].live /\ f \in {"rvs", "rvf", "ms", "mf"}
                    /\ legs' = [legs EXCEPT ![s][f] = x]
                    /\ Keep
\* state and mass at one end together
SetEnd(s, start, x, m) == /\ legs[s].live
                          /\ legs' = IF start THEN [legs EXCEPT ![s].rvs = x, ![s].ms = m] ELSE [legs EXCEPT ![s].rvf = x, ![s].mf = m]
                          /\ Keep
SetCut(s, k) == legs[s].live /\ legs' = (IF OkCut(k) THEN [legs EXCEPT ![s].cut = k] ELSE legs) /\ Keep
SetThr(s, t, extra) == legs[s].live /\ legs' = (IF OkThr(t, extra) THEN [legs EXCEPT ![s].thr = t] ELSE legs) /\ Keep
SelfThr(s) == legs[s].live /\ UNCHANGED vars
Fly(s) == /\ Physical(legs[s]) /\ legs[s].rvs > 0
          /\ flights' = Append(flights, Plan(legs[s]))
          /\ legs' = [legs EXCEPT ![s].rvf = 1000 + Len(flights'), ![s].mf = 1000 + Len(flights')]
          /\ UNCHANGED files
Copy(s, t) == legs[s].live /\ legs' = [legs EXCEPT ![t] = legs[s]] /\ Keep
Move(s, t) == legs[s].live /\ s # t /\ legs' = [legs EXCEPT ![t] = legs[s], ![s] = Dead] /\ Keep
Save(s, f) == legs[s].live /\ files' = [files EXCEPT ![f] = legs[s]] /\ UNCHANGED <<legs, flights>>
Load(f, t) == files[f].live /\ legs' = [legs EXCEPT ![t] = files[f]] /\ Keep
Look(s) == legs[s].live /\ UNCHANGED vars      \* constraints, gradients, histories
Init == legs = [s \in Slots |-> Dead] /\ files = [f \in Files |-> Dead] /\ flights = <<>>
----------------------------------------------------------------------------
Ok(c) == c.live => OkAll(c, 0)
Sound == (\A s \in Slots : Ok(legs[s])) /\ (\A f \in Files : Ok(files[f]))
Counts == \A s \in Slots : LET c == legs[s] IN c.live => Nfwd(c) \in 0..Nseg(c) /\ Nbck(c) >= 0 /\ Nseg(c) >= 1
OneTarget == [][Cardinality({s \in Slots : legs'[s] # legs[s] /\ legs'[s].live}) <= 1]_vars
\* being flown does not depend on the cut nor on the tolerance
FlownKept == [][\A s \in Slots : (Flown(legs[s]) /\ legs'[s].live /\ Plan(legs'[s]) = Plan(legs[s]) /\ legs'[s].rvf = legs[s].rvf /\ legs'[s].mf = legs[s].mf)
                   => (Flown(legs[s]))']_vars
Obs(c) == IF c.live THEN <<1, c.rvs, c.ms, c.rvf, c.mf, c.tof, c.thrust, c.isp, c.mu, c.cut, c.tol, Nseg(c), Nfwd(c), Nbck(c)>> \o c.thr ELSE <<0>>
=============================================================================
