----------------------------- MODULE PyFaceGen ------------------------------
EXTENDS PyFace, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
R(S) == {RandomElement(S)}
OneIn(k) == RandomElement(1..k) = 1
GenInit == Init /\ hist = <<[ev |-> "Start"]>>
Put(e) == hist' = Append(hist, e)
Code(k, f) == CASE f = "throttles" -> 10 * RandomElement(1..5) + RandomElement(0..9) [] f \in {"cut", "ms", "mf"} -> RandomElement(1..9)
                [] f = "revs" -> RandomElement(1..4) [] f = "cw" -> RandomElement(0..1) [] OTHER -> RandomElement(1..9)
GMake == \E p \in R(Vals), k \in R({"sf", "sf", "hf", "hf", "stark", "lambert"}), how \in R({"pos", "kw", "some", "default"}) :
           \E all \in {[f \in SetOf(FieldsOf(k)) |-> IF f \in SetOf(Args(k)) /\ how # "default" /\ (how # "some" \/ OneIn(2)) THEN Code(k, f) ELSE 0]} :
              Make(p, k, all) /\ Put([ev |-> "Make", p |-> p, kind |-> k, how |-> how, v |-> [i \in 1..Len(FieldsOf(k)) |-> all[FieldsOf(k)[i]]]])
GSet == \E p \in R(Vals) : LET k == vals[p].kind IN
          \E f \in R((SetOf(FieldsOf(k)) \ {"cw", "revs"}) \cup (IF k = "hf" THEN {"rvms", "rvmf"} ELSE {})), how \in R({"list", "array", "tuple"}) : \E c \in {Code(k, f)} :
             Set(p, f, c) /\ Put([ev |-> "Set", p |-> p, f |-> f, c |-> c, how |-> how])
GBad == \E p \in R(Vals), b \in R(Bads) : IF IsLeg(vals[p].kind) THEN Ask /\ Put([ev |-> "Bad", p |-> p, b |-> b]) ELSE GMake
GCopy == \E p, q \in R(Vals), how \in R({"copy", "deepcopy", "pickle"}) : Copy(p, q) /\ Put([ev |-> "Copy", p |-> p, q |-> q, how |-> how])
GRead == \E p \in R(Vals) : Ask /\ Put([ev |-> "Read", p |-> p])
GEval == \E p \in R(Vals) : Ask /\ Put([ev |-> "Eval", p |-> p])
GKeep == \E p \in R(Vals) : IF IsLeg(vals[p].kind) THEN Keep(p) /\ Put([ev |-> "Keep", p |-> p]) ELSE GMake
GLook == \E p \in R(Vals) : Ask /\ Put([ev |-> "Look", p |-> p])
GEpoch == \E k \in R(Epochs), how \in R({"mjd2000", "mjd", "jd", "int", "string", "datetime", "tz"}), d \in R(-40000..40000), e \in R(0..7), s \in R(0..86399), u \in R({0, 1, 999999, 123456, RandomElement(0..999999)}) :
            LET ss == CASE how \in {"mjd2000", "mjd", "jd"} -> 10800 * e [] how = "int" -> 0 [] OTHER -> s
                uu == IF how \in {"mjd2000", "mjd", "jd", "int"} THEN 0 ELSE u
            IN NewEpoch(k, d, ss, uu) /\ Put([ev |-> "Epoch", k |-> k, how |-> how, d |-> d, s |-> ss, us |-> uu])
GMove == \E a, b \in R(Epochs), how \in R({"float", "int", "delta", "delta"}), sign \in R({-1, 1}), d \in R({0, 1, RandomElement(-3000..3000)}), e \in R(0..7), s \in R({0, 1, RandomElement(0..86399)}), u \in R({0, 1, RandomElement(0..999999)}) :
            LET ss == CASE how = "float" -> 10800 * e [] how = "int" -> 0 [] OTHER -> s
                uu == IF how = "delta" THEN u ELSE 0
            IN Move(a, b, sign * d, sign * ss, sign * uu) /\ Put([ev |-> "Move", a |-> a, b |-> b, how |-> how, sign |-> sign, d |-> d, s |-> ss, us |-> uu])
GCopyEpoch == \E a, b \in R(Epochs), how \in R({"copy", "deepcopy", "pickle"}) : CopyEpoch(a, b) /\ Put([ev |-> "CopyEpoch", a |-> a, b |-> b, how |-> how])
GCompare == \E a, b \in R(Epochs) : Ask /\ Put([ev |-> "Compare", a |-> a, b |-> b])
GTell == \E k \in R(Epochs) : Ask /\ Put([ev |-> "Tell", k |-> k])
GFun == \E f \in R(Functions), shape \in R({"scalar", "list", "array", "grid", "ecc", "both", "empty"}) : Ask /\ Put([ev |-> "Fun", f |-> f, shape |-> shape])
GMap == \E f \in R(Maps), form \in R({"list", "array", "tuple"}) : Ask /\ Put([ev |-> "Map", f |-> f, form |-> form])
GKep == \E how \in R({"pos", "kw", "default"}), stm \in R(BOOLEAN), n \in R(0..3) : Ask /\ Put([ev |-> "Kepler", how |-> how, stm |-> stm, n |-> n])
GFly == \E f \in R({"con", "dv", "vout"}), how \in R({"planet", "numbers", "kw"}) : Ask /\ Put([ev |-> "Fly", f |-> f, how |-> how])
GConst == Ask /\ Put([ev |-> "Consts"])
Pick(h) == IF Len(h) < 4 THEN 1 ELSE RandomElement(1..48)
GenNext == Len(hist) < Depth /\ \E k \in {Pick(hist)} :
   \/ k \in 1..6 /\ GMake
   \/ k \in 7..12 /\ GSet
   \/ k = 13 /\ GBad
   \/ k \in {14, 15} /\ GCopy
   \/ k \in 16..18 /\ GRead
   \/ k \in 19..22 /\ GEval
   \/ k = 23 /\ GKeep
   \/ k = 24 /\ GLook
   \/ k \in 25..28 /\ GEpoch
   \/ k \in 29..31 /\ GMove
   \/ k = 32 /\ GCopyEpoch
   \/ k \in {33, 34} /\ GCompare
   \/ k \in {35, 36} /\ GTell
   \/ k \in 37..40 /\ GFun
   \/ k \in 41..43 /\ GMap
   \/ k \in {44, 45} /\ GKep
   \/ k \in {46, 47} /\ GFly
   \/ k = 48 /\ GConst
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
