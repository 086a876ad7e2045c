------------------------------ MODULE LambertObj ----------------------------
(***************************************************************************)
(* Lambert problems as values: which data a problem can be built from, and *)
(* what is left in variables and archives after any sequence of builds,    *)
(* copies, assignments, moves, saves and restores.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlots, NFiles, MaxId
Slots == 1..NSlots
Files == 1..NFiles
Numbers == {"pos", "tiny", "zero", "minuszero", "neg", "nan"}
\* ok: a plane that is not parallel to z; polar: its normal is horizontal; collinear: no plane at all
Geos == {"ok", "flat", "polar", "polarneg", "same", "double", "opposite", "null"}
VARIABLES store,   \* store[s]: the problem in variable s, 0: nothing to rely on (never built, or moved from)
          files,   \* archives
          next     \* id of the next problem built
vars == <<store, files, next>>
Positive(x) == x \in {"pos", "tiny"}
WellPosed(tof, mu, geo) == Positive(tof) /\ Positive(mu) /\ geo \in {"ok", "flat"}
Build(s, tof, mu, geo) ==
    IF WellPosed(tof, mu, geo) THEN store' = [store EXCEPT ![s] = next] /\ next' = next + 1 /\ UNCHANGED files
    ELSE UNCHANGED vars        \* refused: nothing happens
Copy(s, t) == store[s] # 0 /\ store' = [store EXCEPT ![t] = store[s]] /\ UNCHANGED <<files, next>>
Move(s, t) == s # t /\ store[s] # 0 /\ store' = [store EXCEPT ![t] = store[s], ![s] = 0] /\ UNCHANGED <<files, next>>
Save(s, f) == store[s] # 0 /\ files' = [files EXCEPT ![f] = store[s]] /\ UNCHANGED <<store, next>>
Load(f, t) == files[f] # 0 /\ store' = [store EXCEPT ![t] = files[f]] /\ UNCHANGED <<files, next>>
Look(s) == store[s] # 0 /\ UNCHANGED vars
Init == store = [s \in Slots |-> 0] /\ files = [f \in Files |-> 0] /\ next = 1
----------------------------------------------------------------------------
TypeOK == store \in [Slots -> 0..MaxId] /\ files \in [Files -> 0..MaxId] /\ next \in 1..(MaxId + 1)
\* everything held anywhere was built; values are never invented
Provenance == \A x \in {store[s] : s \in Slots} \cup {files[f] : f \in Files} : x < next
\* a step changes one variable at most, besides a move which empties its source
OneTarget == [][Cardinality({s \in Slots : store'[s] # store[s] /\ store'[s] # 0}) <= 1]_vars
=============================================================================
