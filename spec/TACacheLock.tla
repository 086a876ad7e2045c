---------------------------- MODULE TACacheLock -----------------------------
(***************************************************************************)
(* How the caches keep that promise: each is a map guarded by a mutex.     *)
(* A lookup that misses builds the integrator and inserts it, all under    *)
(* the mutex; a size query reads the map under the mutex DimMutex[c].      *)
(* Reading and writing a map take time (begin, end), so overlaps show.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Caches, Tols, NOps, DimMutex(_)
VARIABLES map, owner, pc, op, use, left, ans
vars == <<map, owner, pc, op, use, left, ans>>
None == "none"
NoOp == [k |-> "none", c |-> 0, t |-> 0]
Ops == [k : {"Get"}, c : Caches, t : Tols] \cup [k : {"Dim", "Bad"}, c : Caches, t : {0}]
Mutex(o) == IF o.k = "Dim" THEN DimMutex(o.c) ELSE o.c
Init == /\ map = [c \in Caches |-> {}] /\ owner = [m \in Caches |-> None]
        /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> NoOp] /\ use = [c \in Caches |-> {}]
        /\ left = [t \in Threads |-> NOps] /\ ans = [t \in Threads |-> -1]
Call(t) == /\ pc[t] = "idle" /\ left[t] > 0
           /\ \E o \in Ops : op' = [op EXCEPT ![t] = o]
           /\ pc' = [pc EXCEPT ![t] = "wait"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<map, owner, use, ans>>
Lock(t) == /\ pc[t] = "wait" /\ owner[Mutex(op[t])] = None
           /\ owner' = [owner EXCEPT ![Mutex(op[t])] = t] /\ use' = [use EXCEPT ![op[t].c] = @ \cup {<<t, "r">>}]
           /\ pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED <<map, op, left, ans>>
\* the reading is over: found, counted, or missed
Read(t) == /\ pc[t] = "read" /\ use' = [use EXCEPT ![op[t].c] = @ \ {<<t, "r">>}]
           /\ LET o == op[t] IN
              /\ pc' = [pc EXCEPT ![t] = IF o.k = "Dim" \/ (o.k = "Get" /\ o.t \in map[o.c]) THEN "done" ELSE "build"]
              /\ ans' = [ans EXCEPT ![t] = IF o.k = "Dim" THEN Cardinality(map[o.c]) ELSE -1]
           /\ UNCHANGED <<map, owner, op, left>>
\* an invalid tolerance throws here
Build(t) == /\ pc[t] = "build"
            /\ IF op[t].k = "Bad" THEN pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED use
               ELSE pc' = [pc EXCEPT ![t] = "write"] /\ use' = [use EXCEPT ![op[t].c] = @ \cup {<<t, "w">>}]
            /\ UNCHANGED <<map, owner, op, left, ans>>
Write(t) == /\ pc[t] = "write" /\ map' = [map EXCEPT ![op[t].c] = @ \cup {op[t].t}]
            /\ use' = [use EXCEPT ![op[t].c] = @ \ {<<t, "w">>}] /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<owner, op, left, ans>>
Return(t) == /\ pc[t] = "done" /\ owner' = [owner EXCEPT ![Mutex(op[t])] = None]
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ op' = [op EXCEPT ![t] = NoOp] /\ ans' = [ans EXCEPT ![t] = -1] /\ UNCHANGED <<map, use, left>>
Over == (\A t \in Threads : pc[t] = "idle" /\ left[t] = 0) /\ UNCHANGED vars
Step(t) == Call(t) \/ Lock(t) \/ Read(t) \/ Build(t) \/ Write(t) \/ Return(t)
Next == (\E t \in Threads : Step(t)) \/ Over
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
----------------------------------------------------------------------------
\* nobody reads or writes a map while somebody writes it
RaceFree == \A c \in Caches : (\E t \in Threads : <<t, "w">> \in use[c]) => Cardinality(use[c]) = 1
Exclusive == \A m \in Caches : owner[m] # None => pc[owner[m]] \in {"read", "build", "write", "done"}
\* every question is answered
Answered == \A t \in Threads : (pc[t] = "wait") ~> (pc[t] = "idle")
\* each call changes the map as the users' view says, at one instant
User == INSTANCE TACache WITH cached <- map
Refines == User!Spec
\* a size is that of the map while the answer is given
Counts == \A t \in Threads : (pc[t] = "done" /\ op[t].k = "Dim") => ans[t] = Cardinality(map[op[t].c])
=============================================================================
