----------------------------- MODULE ElementsMC -----------------------------
(* Every chain of conversions over a grid of orbits containing all aligned geometries. *)
EXTENDS Elements
CONSTANT Angles, Incs
MCInit == \E c \in {"circ", "low", "hmid"}, i \in Incs, W \in Angles, w \in Angles, f \in Angles, r \in Reps, off \in {0, 1} :
            /\ f \in Fs(c)
            /\ (i \in {0, 180} /\ off = 0 => W = 0) /\ (Circ(c) => w = 0)
            /\ LET o == [cls |-> c, unit |-> "one", i |-> i, W |-> W, w |-> w, f |-> f, off |-> off]
               IN Fits(o, r) /\ orb = o /\ rep = r /\ val = Enc(o, r) /\ noise = 1
MCNext == \E r \in Reps, off \in {0, 1} : Convert(r)
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
