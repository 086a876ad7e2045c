------------------------------ MODULE DirectMC ------------------------------
(* The sparsity is derived, not assumed: the legs are run with sets of      *)
(* variables in place of numbers.                                          *)
EXTENDS Direct
Settings == [id : {1}, kind : {"points"}, nseg : 1..MaxSeg, t0 : {<<>>}, tof : {<<1, 2>>}, mf : {<<1, 2>>}, vinf : {<<>>}, grad : {TRUE}]
            \cup [id : {1}, kind : {"planets"}, nseg : 1..MaxSeg, t0 : {<<3, 4>>}, tof : {<<1, 2>>}, mf : {<<1, 2>>}, vinf : {<<8, 0>>}, grad : {TRUE}]
\* a state is what its position and velocity, and its mass, depend on
Segment(s, x, i) == [rv |-> x.rv \cup x.m \cup Throttle(s, i) \cup {Tof(s)}, m |-> x.m \cup Throttle(s, i) \cup {Tof(s)}]
RECURSIVE Forth(_, _, _), Back(_, _, _)
Forth(s, x, n) == IF n = 0 THEN x ELSE Segment(s, Forth(s, x, n - 1), n)
Back(s, x, n) == IF n > s.nseg THEN x ELSE Segment(s, Back(s, x, n + 1), n)
Ends(s, f) == LET a == Forth(s, [rv |-> T0(s) \cup Vs(s), m |-> {}], f)
                  b == Back(s, [rv |-> (IF s.kind = "points" THEN {} ELSE {0, Tof(s)}) \cup Vf(s), m |-> {Mf(s)}], f + 1)
              IN [rv |-> a.rv \cup b.rv, m |-> a.m \cup b.m]
MCInit == probs = [p \in Probs |-> Default("points")] /\ seen = {}
MCNext == \/ \E p \in Probs, s \in Settings : Make(p, s)
          \/ \E p, q \in Probs : Copy(p, q)
          \/ \E p \in Probs, a \in 1..2 : Cardinality(seen) < 2 /\ Answer(p, "fit", 1, a)
MCSpec == MCInit /\ [][MCNext]_vars
Sound == \A p \in Probs : LET s == probs[p] IN \A f \in 0..s.nseg :
            /\ \A i \in 1..6 : Ends(s, f).rv \subseteq Row(s, i)
            /\ Ends(s, f).m = Row(s, 7)
Inside == \A p \in Probs : LET s == probs[p] IN
            /\ Sparsity(s) \subseteq Pattern(s)
            /\ \A j \in 0..(Dim(s) - 1) : \E i \in 0..(Rows(s) - 1) : <<i, j>> \in Sparsity(s)
            /\ Cardinality(Sparsity(s)) = 1 + 6 * Dim(s) + (2 + 3 * s.nseg) + 3 * s.nseg + (IF s.kind = "points" THEN 0 ELSE 6)
Box == \A p \in Probs : LET s == probs[p] IN /\ Len(Lower(s)) = Dim(s) /\ Len(Upper(s)) = Dim(s)
                                             /\ \A i \in 1..Dim(s) : Lower(s)[i] <= Upper(s)[i]
                                             /\ \A i \in 1..Dim(s) : i - 1 \in Throttles(s) => Lower(s)[i] = -1 /\ Upper(s)[i] = 1
Functional == \A d, e \in seen : d[1] = e[1] /\ d[2] = e[2] /\ d[3] = e[3] => d[4] = e[4]
Mine == [][Cardinality({p \in Probs : probs'[p] # probs[p]}) <= 1]_vars
=============================================================================
