---------------------------- MODULE PyFaceTrace -----------------------------
EXTENDS PyFace, Json, IOUtils
CONSTANT Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
TStart == IsEvent("Start") /\ vals' = [p \in Vals |-> [kind |-> "sf", v |-> Zero("sf")]] /\ eps' = [k \in Epochs |-> [d |-> 0, s |-> 0, us |-> 0]] /\ grads' = [p \in Vals |-> None]
Index(k, f) == CHOOSE i \in 1..Len(FieldsOf(k)) : FieldsOf(k)[i] = f
TMake == IsEvent("Make") /\ Make(E.p, E.kind, [f \in SetOf(FieldsOf(E.kind)) |-> E.v[Index(E.kind, f)]]) /\ E.out = "ok"
TSet == IsEvent("Set") /\ E.out = SetOut(E.p, E.f) /\ Set(E.p, E.f, E.c)
TBad == IsEvent("Bad") /\ Ask /\ E.out # "ok"
TCopy == IsEvent("Copy") /\ Copy(E.p, E.q) /\ E.out = "ok"
\* what is read is what was set, exactly, in lists of one's own
TRead == IsEvent("Read") /\ Ask /\ LET k == vals[E.p].kind v == vals[E.p].v IN
           /\ E.kind = k /\ E.v = [i \in 1..Len(FieldsOf(k)) |-> IF FieldsOf(k)[i] = "revs" THEN 0 ELSE Canon(FieldsOf(k)[i], v[FieldsOf(k)[i]])]
           /\ (IsLeg(k) => E.n = <<Segs(v["throttles"]), NFwd(v), NBck(v)>>)
           /\ (k = "lambert" => E.n[1] = Smaller(Revs(v["revs"]), E.n[3]) /\ E.n[2] = 2 * E.n[1] + 1)
TEval == IsEvent("Eval") /\ Ask /\ E.out = "ok" /\ E.shape = 1 /\ E.err <= Tol
TKeep == IsEvent("Keep") /\ Keep(E.p) /\ E.out = "ok"
TLook == IsEvent("Look") /\ Ask /\ E.same = 1
TEpoch == IsEvent("Epoch") /\ NewEpoch(E.k, E.d, E.s, E.us) /\ E.out = "ok"
TMove == IsEvent("Move") /\ Move(E.a, E.b, E.sign * E.d, E.sign * E.s, E.sign * E.us) /\ E.out = "ok"
TCopyEpoch == IsEvent("CopyEpoch") /\ CopyEpoch(E.a, E.b) /\ E.out = "ok"
TCompare == IsEvent("Compare") /\ Ask /\ E.c = Compare(eps[E.a], eps[E.b])
TTell == IsEvent("Tell") /\ Ask /\ [d |-> E.d, s |-> E.s, us |-> E.us] = eps[E.k] /\ E.err <= Tol
TFun == IsEvent("Fun") /\ Ask /\ E.out = "ok" /\ E.shaped = 1 /\ E.err <= Tol
TMap == IsEvent("Map") /\ Ask /\ E.out = "ok" /\ E.shaped = 1 /\ E.err <= Tol
TKepler == IsEvent("Kepler") /\ Ask /\ E.out = "ok" /\ E.shaped = 1 /\ E.err <= Tol
TFly == IsEvent("Fly") /\ Ask /\ E.out = "ok" /\ E.err <= Tol
TConsts == IsEvent("Consts") /\ Ask /\ E.bad = <<>>
TraceNext == TStart \/ TMake \/ TSet \/ TBad \/ TCopy \/ TRead \/ TEval \/ TKeep \/ TLook \/ TEpoch \/ TMove \/ TCopyEpoch \/ TCompare \/ TTell \/ TFun \/ TMap \/ TKepler \/ TFly \/ TConsts
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
