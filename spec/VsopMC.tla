------------------------------- MODULE VsopMC -------------------------------
(***************************************************************************)
(* How the sharing works: a map from (body, threshold) to compiled code,   *)
(* looked up and filled under one mutex; an object keeps its own copy of   *)
(* the code and points into that copy. Pointing into the shared code, or   *)
(* into the code of the object one was copied from, leaves a user with a   *)
(* pointer to code that is gone: Keep selects the owner of the code an     *)
(* object points into.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Keys, NOps, Keep
VARIABLES map, owner, pc, key, left, objs, live
\* objs[t]: the object of thread t: [key, code]; code = the identity whose death kills it; live: identities alive
vars == <<map, owner, pc, key, left, objs, live>>
None == "none"
NoKey == 0
Init == /\ map = {} /\ owner = None /\ pc = [t \in Threads |-> "idle"] /\ key = [t \in Threads |-> NoKey] /\ left = [t \in Threads |-> NOps]
        /\ objs = [t \in Threads |-> [key |-> NoKey, code |-> None]] /\ live = {}
Call(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ \E k \in Keys : key' = [key EXCEPT ![t] = k]
           /\ pc' = [pc EXCEPT ![t] = "wait"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<map, owner, objs, live>>
Lock(t) == pc[t] = "wait" /\ owner = None /\ owner' = t /\ pc' = [pc EXCEPT ![t] = "in"] /\ UNCHANGED <<map, key, left, objs, live>>
\* found or compiled and inserted; the new object replaces the thread's old one
Build(t) == /\ pc[t] = "in" /\ map' = map \cup {key[t]}
            /\ objs' = [objs EXCEPT ![t] = [key |-> key[t], code |-> t]] /\ live' = live \cup {t}
            /\ pc' = [pc EXCEPT ![t] = "out"] /\ UNCHANGED <<owner, key, left>>
Unlock(t) == pc[t] = "out" /\ owner' = None /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<map, key, left, objs, live>>
\* copying another thread's object; dropping one's own
Copy(t, u) == /\ t # u /\ pc[t] = "idle" /\ pc[u] = "idle" /\ left[t] > 0 /\ objs[u].key # NoKey
              /\ objs' = [objs EXCEPT ![t] = [key |-> objs[u].key, code |-> IF Keep = "own" THEN t ELSE objs[u].code]]
              /\ live' = live \cup {t} /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<map, owner, pc, key>>
Drop(t) == /\ pc[t] = "idle" /\ objs[t].key # NoKey /\ left[t] > 0 /\ objs' = [objs EXCEPT ![t] = [key |-> NoKey, code |-> None]]
           /\ live' = live \ {t} /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<map, owner, pc, key>>
Next == \E t \in Threads : Call(t) \/ Lock(t) \/ Build(t) \/ Unlock(t) \/ Drop(t) \/ \E u \in Threads : Copy(t, u)
Spec == Init /\ [][Next]_vars
TypeOK == map \subseteq Keys /\ (owner # None => pc[owner] \in {"in", "out"})
\* only one thread at a time between lookup and insertion
Exclusive == \A t, u \in Threads : (pc[t] \in {"in", "out"} /\ pc[u] \in {"in", "out"}) => t = u
\* an object runs code that is there, compiled for its own body and threshold
Alive == \A t \in Threads : objs[t].key # NoKey => objs[t].code \in live /\ (objs[t].code = t \/ objs[objs[t].code].key = objs[t].key)
Known == \A t \in Threads : objs[t].key # NoKey => objs[t].key \in map
=============================================================================
