----------------------------- MODULE PlanetValue ----------------------------
(***************************************************************************)
(* Planets as values. A slot holds <<kind, tag>>: the kind of user object  *)
(* inside and which one of that kind, or Gone once moved from. Archives    *)
(* hold the same. Kinds: null (the default), bare (nothing but an          *)
(* ephemeris), full (every capability), kep, jpl (the library's own).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlots, NFiles, Tags
Slots == 1..NSlots
Files == 1..NFiles
Kinds == {"null", "bare", "full", "kep", "jpl"}
Gone == <<"gone", 0>>
Default == <<"null", 0>>
Things == {Default} \cup {<<k, t>> : k \in Kinds \ {"null"}, t \in Tags}
VARIABLES sl, files
vars == <<sl, files>>
Mutable(x) == x[1] \in {"bare", "full"}
----------------------------------------------------------------------------
Make(s, x) == x \in Things /\ sl' = [sl EXCEPT ![s] = x] /\ UNCHANGED files
Copy(s, t) == sl[s] # Gone /\ sl' = [sl EXCEPT ![t] = sl[s]] /\ UNCHANGED files
Move(s, t) == s # t /\ sl[s] # Gone /\ sl' = [sl EXCEPT ![t] = sl[s], ![s] = Gone] /\ UNCHANGED files
Swap(s, t) == sl' = [sl EXCEPT ![s] = sl[t], ![t] = sl[s]] /\ UNCHANGED files
\* extraction finds the user object exactly when asked for its own kind; changes through it stay in that planet
Mutate(s, t) == Mutable(sl[s]) /\ sl' = [sl EXCEPT ![s] = <<sl[s][1], t>>] /\ UNCHANGED files
Extract(s, k) == sl[s] # Gone /\ UNCHANGED vars
Found(s, k) == sl[s][1] = k
Save(s, f) == sl[s] # Gone /\ files' = [files EXCEPT ![f] = sl[s]] /\ UNCHANGED sl
Load(f, t) == sl' = [sl EXCEPT ![t] = files[f]] /\ UNCHANGED files
Init == sl = [s \in Slots |-> Default] /\ files = [f \in Files |-> Default]
=============================================================================
