------------------------------- MODULE MGAGen -------------------------------
EXTENDS MGA, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
R(S) == {RandomElement(S)}
OneIn(k) == RandomElement(1..k) = 1
GenInit == Init /\ hist = <<[ev |-> "Start"]>>
Put(e) == hist' = Append(hist, e)
GT0 == \E l \in R(Lists), lo \in R(-3000..3000), w \in R(0..2000), kind \in R({"float", "int", "epoch", "mixed", "half"}) :
         NewT0(l, lo, lo + w, kind) /\ Put([ev |-> "T0", l |-> l, lo |-> lo, hi |-> lo + w, kind |-> kind])
GSeq == \E l \in R(Lists), n \in R(1..4), sys \in R(1..6) : NewSeq(l, n, sys) /\ Put([ev |-> "Seq", l |-> l, n |-> n, sys |-> sys])
\* eta problems: the longest flight is a power of 8 times something, so that eighths of what is left are whole
GMake == \E p \in R(Probs), enc \in R(Encodings), lt \in R(Lists), ls \in R(Lists), multi \in R(BOOLEAN), insert \in R(BOOLEAN), m \in R(1..3), vinf \in R(0..6), rp \in R(2..9), e \in R({0, 50, 98}) :
         LET n == seqs[ls].n
             tl == CASE enc = "direct" -> [i \in 1..n |-> RandomElement(10..400)] [] enc = "alpha" -> <<RandomElement(50..900)>> [] OTHER -> <<0>>
         IN \E lo \in {tl} : LET
             tu == CASE enc = "direct" -> [i \in 1..n |-> lo[i] + RandomElement(0..600)] [] enc = "alpha" -> <<lo[1] + RandomElement(0..2000)>> [] OTHER -> <<4096 * m>>
         IN \E up \in {tu} : Make(p, enc, lt, ls, lo, up, multi, insert) /\
            Put([ev |-> "Make", p |-> p, enc |-> enc, lt |-> lt, ls |-> ls, tofl |-> lo, tofu |-> up, multi |-> multi, insert |-> insert, vinf |-> vinf, rp |-> rp, e |-> e])
GStock == \E p \in R(Probs), g \in R({"stock", "direct", "alpha", "eta"}) :
         (IF g = "stock" THEN MakeStock(p) ELSE MakeGym(p, g)) /\ Put([ev |-> "Ready", p |-> p, which |-> g])
GFault == \E what \in R(Faults), lt \in R(Lists), ls \in R(Lists) : Ask /\ Put([ev |-> "Fault", what |-> what, lt |-> lt, ls |-> ls])
GCopy == \E p, q \in R(Probs), how \in R({"copy", "deepcopy", "pickle"}) : Copy(p, q) /\ Put([ev |-> "Copy", p |-> p, q |-> q, how |-> how])
GLook == \E l \in R(Lists) : Ask /\ Put([ev |-> "Look", l |-> l])
GBox == \E p \in R(Probs) : probs[p].on /\ Ask /\ Put([ev |-> "Box", p |-> p])
\* genes for a problem: [g, q, total]
Days(p, i) == IF p.sys = 0 THEN RandomElement(p.tofl[i]..p.tofu[i]) ELSE RandomElement(15..900)
Genes(p) == CASE p.enc = "direct" -> [g |-> [i \in 1..p.n |-> Days(p, i)], q |-> Ones(p.n), total |-> 0]
              [] p.enc = "alpha" -> LET w == [i \in 1..p.n |-> RandomElement(1..9)] IN
                                     [g |-> w, q |-> [i \in 1..p.n |-> 10], total |-> 0]
              [] OTHER -> [g |-> [i \in 1..p.n |-> RandomElement(1..(IF p.n > 3 THEN 5 ELSE 7))], q |-> [i \in 1..p.n |-> 8], total |-> p.tofu[1]]
\* (what is drawn is bound once)
Total(p, w) == CASE p.enc = "alpha" -> Sum(w.g) * RandomElement(IF p.sys = 0 THEN 200..350 ELSE 15..150) [] OTHER -> w.total
\* the stock problems have their own longest flight, not whole in eighths: genes there come from a trajectory
EtaStock(p) == p.enc = "eta" /\ p.sys = 0
Pick(p) == IF EtaStock(p) THEN LET T == [i \in 1..p.n |-> RandomElement(100..1200)] IN [g |-> T, q |-> <<>>, total |-> p.tofu[1]] ELSE Genes(p)
Fill(p, w) == IF EtaStock(p) THEN [w EXCEPT !.q = EncodeQ("eta", w.g, w.total)] ELSE [w EXCEPT !.total = Total(p, w)]
Scaled(w) == [w EXCEPT !.q = [i \in 1..Len(w.q) |-> RandomElement({Sum(w.g)})]]
\* alpha genes must be in (0, 1): any common scale of the logarithms
Rescale(p, w, k) == IF p.enc = "alpha" THEN [w EXCEPT !.q = [i \in 1..Len(w.q) |-> k]] ELSE w
Traj(p, w) == Decode(p.enc, w.g, w.q, w.total)
Start8(p, h) == RandomElement((8 * p.lo)..(8 * p.hi))
Forms(t8) == {"list", "array", "reused", "tuple", "mixed"} \cup (IF t8 % 8 = 0 THEN {"ints", "intarray"} ELSE {})
With(p, A(_, _)) == \E w0 \in {Pick(p)} : \E w1 \in {Fill(p, w0)} : \E k \in {RandomElement({3, 10, 40, Sum(w1.g)})} : \E w \in {Rescale(p, w1, k)} : \E t8 \in {Start8(p, hist)} : A(w, t8)
GCost == \E k \in R(Probs) : LET p == probs[k]
             A(w, t8) == \E form \in R(Forms(t8)) : Ask /\ Put([ev |-> "Cost", p |-> k, t8 |-> t8, T |-> Traj(p, w), g |-> w.g, q |-> w.q, total |-> w.total, form |-> form])
         IN p.on /\ With(p, A)
GShip == \E k \in R(Probs), s \in R(Ships) : LET p == probs[k]
             A(w, t8) == \E form \in R(Forms(t8)) : Launch(k, s, t8, Traj(p, w)) /\ Put([ev |-> "Ship", p |-> k, s |-> s, t8 |-> t8, T |-> Traj(p, w), g |-> w.g, q |-> w.q, total |-> w.total, form |-> form])
         IN p.on /\ With(p, A)
GShort == \E k \in R(Probs), d \in R({-1, 1}) : probs[k].on /\ Ask /\ Put([ev |-> "Short", p |-> k, d |-> d])
Between(e, i) == e[i] + RandomElement(0..(e[i + 1] - e[i]))
Flying == {s \in Ships : ships[s].on}
GAsk == \E s \in R(Flying) : LET e == ships[s].ep IN
         /\ ships[s].on
         /\ \E t8 \in {CASE OneIn(6) -> e[1] - RandomElement({1, 8, 800}) [] OneIn(5) -> e[Len(e)] + RandomElement({1, 8, 800}) [] OneIn(4) -> e[RandomElement(1..Len(e))] [] OTHER -> Between(e, RandomElement(1..(Len(e) - 1)))}, how \in R({"float", "epoch", "v"}) :
              Ask /\ Put([ev |-> "Ask", s |-> s, t8 |-> t8, how |-> how])
GConv == \E k \in R(Probs), form \in R({"list", "array", "ints", "intarray"}), to \in R({"d2a", "a2d", "d2e", "e2d"}) : LET p == probs[k] IN
         /\ p.on
         /\ LET dt == IF p.enc = "eta" THEN p.tofu[1] ELSE 0
                n == IF p.enc = "eta" THEN p.n ELSE RandomElement(1..5)
            IN \E T \in {[i \in 1..n |-> RandomElement(10..(IF dt = 0 THEN 900 ELSE (dt \div n) - 1))]}, t \in R(-3000..3000) :
               Ask /\ Put([ev |-> "Conv", p |-> k, to |-> to, form |-> form, t |-> t, T |-> T, q |-> IF to = "d2e" \/ to = "e2d" THEN EncodeQ("eta", T, dt) ELSE EncodeQ("alpha", T, 0)])
GTell == \E k \in R(Probs) : LET p == probs[k]
             A(w, t8) == Ask /\ Put([ev |-> "Tell", p |-> k, t8 |-> t8, T |-> Traj(p, w), g |-> w.g, q |-> w.q, total |-> w.total])
         IN p.on /\ With(p, A)
Pick2(h) == IF Len(h) < 4 THEN Len(h) ELSE RandomElement(1..26)
GenNext == Len(hist) < Depth /\ \E k \in {Pick2(hist)} :
   \/ k \in {1} /\ GT0
   \/ k \in {2} /\ GSeq
   \/ k \in {3, 4, 5} /\ GMake
   \/ k = 6 /\ GStock
   \/ k \in {7, 8} /\ GFault
   \/ k = 9 /\ GCopy
   \/ k = 10 /\ GLook
   \/ k = 11 /\ GBox
   \/ k \in 12..16 /\ GCost
   \/ k \in {17, 18} /\ GShip
   \/ k \in 19..22 /\ (IF Flying = {} THEN GShip ELSE GAsk)
   \/ k \in {23, 24} /\ GConv
   \/ k = 25 /\ GTell
   \/ k = 26 /\ GShort
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
