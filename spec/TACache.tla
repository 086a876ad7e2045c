------------------------------- MODULE TACache ------------------------------
(***************************************************************************)
(* The process-wide caches of Taylor integrators, as their users see them: *)
(* a set of tolerances per cache. Asking for an integrator adds its        *)
(* tolerance (once); asking for the size counts the tolerances; an invalid *)
(* tolerance is refused and leaves nothing behind. Each question takes     *)
(* effect at one instant between its call and its return, so what a run of *)
(* several threads reports must agree with some order of their questions   *)
(* that respects real time.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Caches, Tols
VARIABLES cached       \* cached[c]: the tolerances for which cache c holds an integrator
BadTols == {"nan", "negative", "infinite"}
Empty == [c \in Caches |-> {}]
Get(c, t) == cached' = [cached EXCEPT ![c] = @ \cup {t}]
Dim(c) == UNCHANGED cached
Bad(c) == UNCHANGED cached
Init == cached = Empty
Next == \E c \in Caches : (\E t \in Tols : Get(c, t)) \/ Dim(c) \/ Bad(c)
Spec == Init /\ [][Next]_cached
----------------------------------------------------------------------------
\* ops: records [inv, res, op, c, t, out]; inv and res are the instants of the call and of the return
After(o, st) == IF o.op = "Get" THEN [st EXCEPT ![o.c] = @ \cup {o.t}] ELSE st
Agrees(o, st) == o.op = "Dim" => o.out = Cardinality(st[o.c])
\* o may be the first of S to take effect: nothing else of S had returned when it was called
First(o, S) == \A p \in S : ~(p.res < o.inv)
RECURSIVE Linear(_, _)
Linear(S, st) == S = {} \/ \E o \in S : First(o, S) /\ Agrees(o, st) /\ Linear(S \ {o}, After(o, st))
=============================================================================
