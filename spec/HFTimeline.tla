----------------------------- MODULE HFTimeline -----------------------------
(***************************************************************************)
(* The timeline of a high-fidelity leg, walked in both directions: for any *)
(* number of segments, any cut and any number of history points the sides  *)
(* meet at one instant, every segment is flown once, the history starts at *)
(* the departure, ends at the arrival and its segments join; only at the   *)
(* cut are two states (one from either side) reported for one instant.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxK
H == INSTANCE HF WITH NSlots <- 1, NFiles <- 1, legs <- 0, files <- 0, flights <- 0
VARIABLES n, cut, k, fw, bw, clockF, clockB, flown
tv == <<n, cut, k, fw, bw, clockF, clockB, flown>>
nf == (n * cut) \div 64
Init == /\ n \in 1..MaxN /\ cut \in 0..64 /\ k \in 2..MaxK
        /\ fw = H!Fwd(n, nf) /\ bw = H!Bck(n, nf) /\ clockF = 0 /\ clockB = n * (k - 1) /\ flown = <<>>
rows == H!HistTimes(n, nf, k)
StepF == /\ fw # <<>> /\ fw' = Tail(fw) /\ clockF' = clockF + (k - 1) /\ flown' = Append(flown, Head(fw))
         /\ rows[Head(fw)][1] = clockF /\ rows[Head(fw)][k] = clockF'
         /\ UNCHANGED <<n, cut, k, bw, clockB>>
StepB == /\ bw # <<>> /\ bw' = Tail(bw) /\ clockB' = clockB - (k - 1) /\ flown' = Append(flown, Head(bw))
         /\ rows[Head(bw)][1] = clockB /\ rows[Head(bw)][k] = clockB'
         /\ UNCHANGED <<n, cut, k, fw, clockF>>
Next == StepF \/ (fw = <<>> /\ StepB)
Spec == Init /\ [][Next]_tv
Enabled == (fw # <<>> \/ bw # <<>>) => ENABLED Next      \* the rows are where the clocks are
Once == \A i, j \in DOMAIN flown : flown[i] = flown[j] => i = j
Meet == (fw = <<>> /\ bw = <<>>) => clockF = clockB /\ {flown[j] : j \in DOMAIN flown} = 1..n
Spread == \A i \in 1..n : \A j \in 1..(k - 1) : rows[i][j + 1] - rows[i][j] = IF i <= nf THEN 1 ELSE -1
=============================================================================
