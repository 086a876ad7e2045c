----------------------------- MODULE SFTimeline -----------------------------
(***************************************************************************)
(* Flying the timeline of a leg: both sides run their operations; whatever *)
(* the number of segments and the cut, they meet at the same instant, each *)
(* throttle acts once, at the middle of its own segment.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN
S == INSTANCE SF WITH NSlots <- 1, NFiles <- 1, legs <- 0, files <- 0, flights <- 0
VARIABLES n, cut, fw, bw, clockF, clockB, fired
tv == <<n, cut, fw, bw, clockF, clockB, fired>>
nf == (n * cut) \div 64
Init == /\ n \in 1..MaxN /\ cut \in 0..64
        /\ fw = S!Fwd(n, nf) /\ bw = S!Bck(n, nf)
        /\ clockF = 0 /\ clockB = 2 * n /\ fired = <<>>
StepF == /\ fw # <<>> /\ fw' = Tail(fw) /\ UNCHANGED <<n, cut, bw, clockB>>
         /\ IF Head(fw) > 0 THEN clockF' = clockF + Head(fw) /\ UNCHANGED fired
            ELSE clockF' = clockF /\ fired' = Append(fired, <<-Head(fw), clockF>>)
StepB == /\ bw # <<>> /\ bw' = Tail(bw) /\ UNCHANGED <<n, cut, fw, clockF>>
         /\ IF Head(bw) > 0 THEN clockB' = clockB - Head(bw) /\ UNCHANGED fired
            ELSE clockB' = clockB /\ fired' = Append(fired, <<-Head(bw), clockB>>)
Next == StepF \/ (fw = <<>> /\ StepB)
Spec == Init /\ [][Next]_tv
MidSegment == \A j \in DOMAIN fired : fired[j][2] = 2 * fired[j][1] - 1
Once == \A i, j \in DOMAIN fired : fired[i][1] = fired[j][1] => i = j
Meet == (fw = <<>> /\ bw = <<>>) => /\ clockF = clockB /\ clockF = 2 * nf
                                    /\ {fired[j][1] : j \in DOMAIN fired} = 1..n
=============================================================================
