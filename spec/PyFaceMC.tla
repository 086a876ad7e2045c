------------------------------ MODULE PyFaceMC ------------------------------
(* Small instances: values are values, and time is a group with an order.  *)
EXTENDS PyFace
Codes == {0, 11}
Some == {"ms", "throttles", "rvms", "tol"}
Dates == {[d |-> d, s |-> s, us |-> u] : d \in {-1, 0}, s \in {0, 86399}, u \in {0, 999999}}
MCNext == \/ \E p \in Vals, k \in {"sf", "hf", "stark"} : Make(p, k, Zero(k))
          \/ \E p \in Vals, f \in Some, c \in Codes : Set(p, f, c)
          \/ \E p, q \in Vals : Copy(p, q)
          \/ \E p \in Vals : Keep(p)
MCSpec == Init /\ [][MCNext]_vars
\* epochs in the small: every pair of dates and every step
MCEpochInit == vals = [p \in Vals |-> None] /\ grads = [p \in Vals |-> None] /\ eps \in [Epochs -> Dates]
MCEpochSpec == MCEpochInit /\ [][UNCHANGED vars]_vars
Steps == {<<dd, ds, du>> : dd \in {-1, 1}, ds \in {-86399, 0, 1}, du \in {-999999, 0, 1}}
Ordered == \A a, b \in Epochs : LET c == Compare(eps[a], eps[b]) IN c[1] + c[2] + c[5] = 1 /\ c[3] = 1 - c[2] /\ c[4] = 1 - c[1] /\ c[6] = 1 - c[5]
Back == \A a \in Epochs : \A t \in Steps : LET m == Moved(eps[a], t[1], t[2], t[3]) IN
          /\ Moved(m, -t[1], -t[2], -t[3]) = eps[a]
          /\ m.s \in 0..86399 /\ m.us \in 0..999999
Forward == \A a, b \in Epochs : \A t \in Steps : Later(eps[a], eps[b]) => Later(Moved(eps[a], t[1], t[2], t[3]), Moved(eps[b], t[1], t[2], t[3]))
\* a value changes only by being set or replaced; what is kept stays
Typed == \A p \in Vals : DOMAIN vals[p].v = (IF vals[p].kind = "none" THEN {} ELSE SetOf(FieldsOf(vals[p].kind)))
Apart == [][Cardinality({p \in Vals : vals'[p] # vals[p]}) <= 1]_vars
Fixed == [][\A p \in Vals : vals[p].kind = "stark" /\ vals'[p].kind = "stark" => vals'[p] = vals[p]]_vars
Kept == [][\A p \in Vals : grads'[p] # grads[p] => grads'[p] = vals[p]]_vars
Segments == \A p \in Vals : IsLeg(vals[p].kind) => NFwd(vals[p].v) \in 0..Segs(vals[p].v["throttles"])
=============================================================================
