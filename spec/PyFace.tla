------------------------------- MODULE PyFace -------------------------------
(***************************************************************************)
(* The Python face of the library's values: legs, Stark and Lambert        *)
(* problems are values made of settings, epochs are points of time. A      *)
(* setting has a number here (0 is its default). What Python gives or gets *)
(* is a copy: changing a list later changes no value. Epochs count    *)
(* days, seconds and microseconds since 2000.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NVals, NEpochs
VARIABLES vals,     \* vals[p] = [kind, v]: v is a function from fields to numbers
          eps,      \* eps[k] = [d, s, us]
          grads     \* gradients somebody keeps: [p -> 0 (none) or the settings they are of]
vars == <<vals, eps, grads>>
Vals == 1..NVals
Epochs == 1..NEpochs
Kinds == {"sf", "hf", "stark", "lambert"}
LegFields == <<"rvs", "ms", "throttles", "rvf", "mf", "tof", "max_thrust", "isp", "mu", "cut">>
FieldsOf(k) == CASE k = "sf" -> LegFields [] k = "hf" -> Append(LegFields, "tol") [] k = "stark" -> <<"mu", "veff", "tol">> [] OTHER -> <<"r0", "r1", "tof", "mu", "cw", "revs">>
\* in the order of the constructor (the tolerance of a leg is set afterwards)
Args(k) == IF k = "hf" THEN LegFields ELSE FieldsOf(k)
SetOf(s) == {s[i] : i \in 1..Len(s)}
IsLeg(k) == k \in {"sf", "hf"}
Zero(k) == [f \in SetOf(FieldsOf(k)) |-> 0]
\* what is refused
Bads == {"throttles_two", "throttles_none", "tof", "max_thrust", "isp", "mu", "cut_low", "cut_high", "rvs_short", "text"}
\* a throttle list number says how many segments; a cut number how many eighths
Segs(code) == IF code = 0 THEN 2 ELSE code \div 10
Cut8(code) == IF code = 0 THEN 4 ELSE code - 1
NFwd(v) == (Segs(v["throttles"]) * Cut8(v["cut"])) \div 8
NBck(v) == Segs(v["throttles"]) - NFwd(v)
\* a Lambert problem has 2 Nmax + 1 solutions, Nmax no more than asked for
Revs(code) == IF code = 0 THEN 1 ELSE code - 1
Smaller(a, b) == IF a < b THEN a ELSE b
\* numbers that stand for the default's value are read as the default
Canon(f, c) == IF f = "cut" /\ c = 5 THEN 0 ELSE c
----------------------------------------------------------------------------
Later(a, b) == a.d > b.d \/ (a.d = b.d /\ (a.s > b.s \/ (a.s = b.s /\ a.us > b.us)))
Bit(x) == IF x THEN 1 ELSE 0
Compare(a, b) == <<Bit(Later(b, a)), Bit(Later(a, b)), Bit(~Later(a, b)), Bit(~Later(b, a)), Bit(a = b), Bit(a # b)>>
\* moved by days, seconds and microseconds of any sign, with carries
Carry(x, n) == IF x >= 0 THEN x \div n ELSE -((n - 1 - x) \div n)
Moved(e, dd, ds, du) == LET u == e.us + du  cu == Carry(u, 1000000)  s == e.s + ds + cu  cs == Carry(s, 86400)
                        IN [d |-> e.d + dd + cs, s |-> s - 86400 * cs, us |-> u - 1000000 * cu]
----------------------------------------------------------------------------
Make(p, k, v) == vals' = [vals EXCEPT ![p] = [kind |-> k, v |-> v]] /\ UNCHANGED <<eps, grads>>
Settable(k, f) == IsLeg(k) /\ (f \in SetOf(FieldsOf(k)) \cup (IF k = "hf" THEN {"rvms", "rvmf"} ELSE {}))
Put1(v, f, c) == CASE f = "rvms" -> [v EXCEPT !["rvs"] = c, !["ms"] = c] [] f = "rvmf" -> [v EXCEPT !["rvf"] = c, !["mf"] = c] [] OTHER -> [v EXCEPT ![f] = c]
Set(p, f, c) == /\ (IF Settable(vals[p].kind, f) THEN vals' = [vals EXCEPT ![p].v = Put1(@, f, c)] /\ UNCHANGED <<eps, grads>> ELSE UNCHANGED vars)
SetOut(p, f) == IF Settable(vals[p].kind, f) THEN "ok" ELSE "AttributeError"
Copy(p, q) == vals' = [vals EXCEPT ![q] = vals[p]] /\ UNCHANGED <<eps, grads>>
\* gradients taken from a leg remain what they were
Keep(p) == IsLeg(vals[p].kind) /\ grads' = [grads EXCEPT ![p] = vals[p]] /\ UNCHANGED <<vals, eps>>
Ask == UNCHANGED vars
NewEpoch(k, d, s, us) == eps' = [eps EXCEPT ![k] = [d |-> d, s |-> s, us |-> us]] /\ UNCHANGED <<vals, grads>>
Move(a, b, dd, ds, du) == eps' = [eps EXCEPT ![b] = Moved(eps[a], dd, ds, du)] /\ UNCHANGED <<vals, grads>>
CopyEpoch(a, b) == eps' = [eps EXCEPT ![b] = eps[a]] /\ UNCHANGED <<vals, grads>>
None == [kind |-> "none", v |-> [f \in {} |-> 0]]
Init == vals = [p \in Vals |-> [kind |-> "sf", v |-> Zero("sf")]] /\ eps = [k \in Epochs |-> [d |-> 0, s |-> 0, us |-> 0]] /\ grads = [p \in Vals |-> None]
Functions == {"m2e", "e2m", "m2f", "f2m", "e2f", "f2e", "n2h", "h2n", "n2f", "f2n", "h2f", "f2h", "zeta2f", "f2zeta"}
Maps == {"ic2par", "par2ic", "ic2eq", "eq2ic", "par2eq", "eq2par"}
=============================================================================
