---------------------------- MODULE TACacheTrace ----------------------------
EXTENDS TACache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cached, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
ToSet(q) == {q[j] : j \in DOMAIN q}
TStart == IsEvent("Start") /\ cached' = Empty
Asked(o) == CASE o.op \in {"Get", "Use"} -> o.out = 1          \* the one integrator, configured as asked and untouched, or what it computes
              [] o.op = "Bad" -> o.out = 2                     \* refused
              [] OTHER -> o.out >= 0
Plain(o) == IF o.op = "Use" THEN [o EXCEPT !.op = "Get"] ELSE o
\* one round of concurrent questions
TRun == /\ IsEvent("Run")
        /\ E.races = 0
        /\ \A j \in DOMAIN E.ops : Asked(E.ops[j])
        /\ LET S == {Plain(E.ops[j]) : j \in DOMAIN E.ops} IN
           /\ Linear(S, cached) = TRUE
           /\ cached' = [c \in Caches |-> cached[c] \cup {o.t : o \in {p \in S : p.op = "Get" /\ p.c = c}}]
\* afterwards: the sizes; every integrator asked for found again at its place, no two at the same, each as it was made
TEnd == IsEvent("End") /\ UNCHANGED cached /\ E.dims = [c \in Caches |-> Cardinality(cached[c])] /\ E.same = 1 /\ E.distinct = 1 /\ E.pristine = 1
TraceNext == TStart \/ TRun \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
