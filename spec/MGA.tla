-------------------------------- MODULE MGA --------------------------------
(***************************************************************************)
(* Multiple gravity assist problems. A trajectory is a launch epoch and    *)
(* the days spent on each leg; a problem reads it from a vector of genes   *)
(* in one of three encodings. Genes are exact here: a pair g/q stands for  *)
(* the gene itself (direct: g days; eta: g/q of the time that is left) or  *)
(* for the logarithm of an alpha gene, -g/q. Epochs are in eighths of a    *)
(* day. Problems are built from lists that belong to the caller, and share *)
(* them.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NLists, NProbs, NShips
VARIABLES t0s,      \* t0s[l] = [lo, hi, kind]: the caller's lists of launch epochs
          seqs,     \* seqs[l] = [n, sys]: the caller's lists of n + 1 bodies
          probs,    \* probs[p] = [enc, n, sys, t0, tof, ...]
          ships     \* ships[k]: spacecraft made from (problem, trajectory)
vars == <<t0s, seqs, probs, ships>>
Lists == 1..NLists
Probs == 1..NProbs
Ships == 1..NShips
Encodings == {"direct", "alpha", "eta"}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
First(s, k) == SubSeq(s, 1, k)
----------------------------------------------------------------------------
\* what genes mean; total: T of an alpha vector, the longest flight of an eta problem
DecodeAlpha(g, total) == [i \in 1..Len(g) |-> (total * g[i]) \div Sum(g)]
RECURSIVE DecodeEta(_, _, _)
DecodeEta(g, q, left) == IF g = <<>> THEN <<>>
                         ELSE LET t == (left * Head(g)) \div Head(q) IN <<t>> \o DecodeEta(Tail(g), Tail(q), left - t)
Decode(enc, g, q, total) == CASE enc = "direct" -> g [] enc = "alpha" -> DecodeAlpha(g, total) [] OTHER -> DecodeEta(g, q, total)
\* whether the numbers above come out whole
RECURSIVE WholeEta(_, _, _)
WholeEta(g, q, left) == g = <<>> \/ LET t == (left * Head(g)) \div Head(q) IN (left * Head(g)) % Head(q) = 0 /\ WholeEta(Tail(g), Tail(q), left - t)
Whole(enc, g, q, total) == CASE enc = "direct" -> TRUE [] enc = "alpha" -> \A i \in 1..Len(g) : (total * g[i]) % Sum(g) = 0 [] OTHER -> WholeEta(g, q, total)
\* genes of a trajectory
Ones(n) == [i \in 1..n |-> 1]
EncodeG(enc, T) == T
EncodeQ(enc, T, dt) == CASE enc = "direct" -> Ones(Len(T)) [] enc = "alpha" -> [i \in 1..Len(T) |-> Sum(T)]
                         [] OTHER -> [i \in 1..Len(T) |-> dt - Sum(First(T, i - 1))]
\* encounters, in eighths of a day
Epochs(t8, T) == [i \in 1..(Len(T) + 1) |-> t8 + 8 * Sum(First(T, i - 1))]
----------------------------------------------------------------------------
\* the box of the genes, in thousandths
Thousand(s) == [i \in 1..Len(s) |-> 1000 * s[i]]
Lower(p) == CASE p.enc = "direct" -> <<1000 * p.lo>> \o Thousand(p.tofl) [] p.enc = "alpha" -> <<1000 * p.lo, 1000 * p.tofl[1]>> \o [i \in 1..p.n |-> 1] [] OTHER -> <<1000 * p.lo>> \o [i \in 1..p.n |-> 1]
Upper(p) == CASE p.enc = "direct" -> <<1000 * p.hi>> \o Thousand(p.tofu) [] p.enc = "alpha" -> <<1000 * p.hi, 1000 * p.tofu[1]>> \o [i \in 1..p.n |-> 999] [] OTHER -> <<1000 * p.hi>> \o [i \in 1..p.n |-> 999]
Objectives(p) == IF p.multi THEN 2 ELSE 1
----------------------------------------------------------------------------
NoList == [lo |-> 0, hi |-> 1, kind |-> "float"]
NoSeq == [n |-> 1, sys |-> 1]
NoShip == [on |-> FALSE]
\* the problem one gets without saying anything
Stock == [on |-> TRUE, enc |-> "direct", n |-> 2, sys |-> 0, lo |-> 0, hi |-> 1000, tofl |-> <<30, 200>>, tofu |-> <<200, 300>>, multi |-> FALSE, insert |-> FALSE]
Gym(enc) == [on |-> TRUE, enc |-> enc, n |-> 5, sys |-> 0, lo |-> -1000, hi |-> 0,
             tofl |-> CASE enc = "direct" -> <<30, 100, 30, 400, 1000>> [] enc = "alpha" -> <<4000>> [] OTHER -> <<0>>,
             tofu |-> CASE enc = "direct" -> <<400, 470, 400, 2000, 6000>> [] enc = "alpha" -> <<7000>> [] OTHER -> <<7000>>, multi |-> FALSE, insert |-> TRUE]
NewT0(l, lo, hi, kind) == t0s' = [t0s EXCEPT ![l] = [lo |-> lo, hi |-> hi, kind |-> kind]] /\ UNCHANGED <<seqs, probs, ships>>
NewSeq(l, n, sys) == seqs' = [seqs EXCEPT ![l] = [n |-> n, sys |-> sys]] /\ UNCHANGED <<t0s, probs, ships>>
Make(p, enc, lt, ls, tofl, tofu, multi, insert) ==
   /\ probs' = [probs EXCEPT ![p] = [on |-> TRUE, enc |-> enc, n |-> seqs[ls].n, sys |-> seqs[ls].sys, lo |-> t0s[lt].lo, hi |-> t0s[lt].hi,
                                    tofl |-> tofl, tofu |-> tofu, multi |-> multi, insert |-> insert]]
   /\ UNCHANGED <<t0s, seqs, ships>>
MakeStock(p) == probs' = [probs EXCEPT ![p] = Stock] /\ UNCHANGED <<t0s, seqs, ships>>
MakeGym(p, enc) == probs' = [probs EXCEPT ![p] = Gym(enc)] /\ UNCHANGED <<t0s, seqs, ships>>
Copy(p, q) == probs[p].on /\ probs' = [probs EXCEPT ![q] = probs[p]] /\ UNCHANGED <<t0s, seqs, ships>>
Launch(p, k, t8, T) == probs[p].on /\ ships' = [ships EXCEPT ![k] = [on |-> TRUE, exact |-> probs[p].enc = "direct", ep |-> Epochs(t8, T)]] /\ UNCHANGED <<t0s, seqs, probs>>
Ask == UNCHANGED vars
\* errors of construction, by what is wrong with the arguments
Refusal(what) == IF what \in {"mu", "encoding", "no_rp", "no_e"} THEN "ValueError" ELSE "TypeError"
Faults == {"mu", "encoding", "no_rp", "no_e", "alpha_float", "alpha_one", "alpha_three", "direct_float", "direct_few", "direct_flat", "direct_crossed", "eta_list"}
\* a spacecraft exists from launch to arrival
When(k, t8) == LET e == ships[k].ep IN IF t8 < e[1] THEN "early" ELSE IF t8 > e[Len(e)] THEN "late" ELSE "ok"
Init == /\ t0s = [l \in Lists |-> NoList] /\ seqs = [l \in Lists |-> NoSeq] /\ probs = [p \in Probs |-> Stock] /\ ships = [k \in Ships |-> NoShip]
=============================================================================
