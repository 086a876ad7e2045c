------------------------------- MODULE MGAMC --------------------------------
(* Small instances: encodings describe the same trajectories, exactly.     *)
EXTENDS MGA
CONSTANTS MaxT, MaxLegs, Slack
VARIABLE tr        \* a trajectory and a longest flight
mcvars == <<vars, tr>>
Trajs == UNION {[1..n -> 1..MaxT] : n \in 1..MaxLegs}
MCInit == Init /\ \E T \in Trajs : \E s \in 1..Slack : tr = [T |-> T, dt |-> Sum(T) + s]
Small == [lo |-> 0, hi |-> 2, kind |-> "int"]
MCNext == /\ UNCHANGED tr
          /\ \/ \E l \in Lists : NewT0(l, 0, 2, "int")
             \/ \E l \in Lists : NewSeq(l, Len(tr.T), 1)
             \/ \E p \in Probs, enc \in Encodings, a, b \in Lists : seqs[b].n = Len(tr.T) /\ Make(p, enc, a, b, IF enc = "direct" THEN tr.T ELSE <<Sum(tr.T)>>, IF enc = "direct" THEN tr.T ELSE <<tr.dt>>, FALSE, FALSE)
             \/ \E p \in Probs, k \in Ships : probs[p].on /\ Launch(p, k, 3, tr.T)
             \/ \E p, q \in Probs : Copy(p, q)
MCSpec == MCInit /\ [][MCNext]_mcvars
Same == \A enc \in Encodings : LET g == EncodeG(enc, tr.T)  q == EncodeQ(enc, tr.T, tr.dt)  total == IF enc = "alpha" THEN Sum(tr.T) ELSE tr.dt IN
          /\ Whole(enc, g, q, total)
          /\ Decode(enc, g, q, total) = tr.T
\* the total time is the sum of the legs; eta never takes all that is left; scaling the logarithms changes nothing
Total == LET e == Epochs(0, tr.T) IN e[Len(e)] = 8 * Sum(tr.T)
InBox == LET g == EncodeG("eta", tr.T) q == EncodeQ("eta", tr.T, tr.dt) IN \A i \in 1..Len(g) : 0 < g[i] /\ g[i] < q[i]
Scale == \A k \in 2..3 : Decode("alpha", [i \in 1..Len(tr.T) |-> k * tr.T[i]], <<>>, Sum(tr.T)) = tr.T
Ordered == \A k \in Ships : ships[k].on => \A i \in 1..(Len(ships[k].ep) - 1) : ships[k].ep[i] < ships[k].ep[i + 1]
BoxLen == \A p \in Probs : probs[p].on => Len(Lower(probs[p])) = Len(Upper(probs[p])) /\ Len(Lower(probs[p])) = probs[p].n + (IF probs[p].enc = "alpha" THEN 2 ELSE 1)
BoxOrder == \A p \in Probs : probs[p].on => \A i \in 1..Len(Lower(probs[p])) : Lower(probs[p])[i] <= Upper(probs[p])[i]
\* whatever is built or flown, the caller's lists change only when the caller makes new ones
Mine == [][(\E p \in Probs : probs'[p] # probs[p]) \/ (\E k \in Ships : ships'[k] # ships[k]) => t0s' = t0s /\ seqs' = seqs]_mcvars
\* a problem keeps its meaning when lists are made anew or other problems are built
Kept == [][\A p \in Probs : (t0s' # t0s \/ seqs' # seqs \/ ships' # ships) => probs'[p] = probs[p]]_mcvars
=============================================================================
