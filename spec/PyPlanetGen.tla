----------------------------- MODULE PyPlanetGen ----------------------------
EXTENDS PyPlanet, Json, IOUtils, SequencesExt
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
R(S) == {RandomElement(S)}
OneIn(k) == RandomElement(1..k) = 1
GenInit == Init /\ hist = <<[ev |-> "Start"]>>
Put(e) == hist' = Append(hist, e)
Order == <<"eph", "eph_v", "name", "info", "muc", "mus", "radius", "safe", "period", "elements">>
Status(m) == CASE m = "eph" -> (IF OneIn(12) THEN RandomElement({"boom", "bad", "no", "data"}) ELSE "yes")
               [] m = "muc" -> RandomElement({"yes", "yes", "yes", "no"} \cup (IF OneIn(8) THEN {"boom", "data"} ELSE {"yes"}))
               [] m \in {"eph_v", "period", "elements"} -> (IF OneIn(9) THEN RandomElement({"boom", "bad", "data"}) ELSE RandomElement({"yes", "no"}))
               [] OTHER -> (IF OneIn(12) THEN RandomElement({"boom", "data"}) ELSE RandomElement({"yes", "no"}))
Unused == {c \in Classes : \A u \in Alive : objs[u].c # c}
GClass == \E c \in R(IF Unused = {} THEN Classes ELSE Unused) : \E st \in {[m \in Methods |-> Status(m)]} :
            IF Unused = {} THEN \E m \in R(Methods) : Change(c, m, st[m]) /\ Put([ev |-> "Change", c |-> c, m |-> m, s |-> st[m]])
            ELSE NewClass(c, st) /\ Put([ev |-> "Class", c |-> c, st |-> [i \in 1..Len(Order) |-> st[Order[i]]]])
GChange == \E c \in R(Classes), m \in R(Methods) : \E s \in {Status(m)} : Change(c, m, s) /\ Put([ev |-> "Change", c |-> c, m |-> m, s |-> s])
GClear == \E p \in R(Slots) : Clear(p) /\ Put([ev |-> "Clear", p |-> p])
GNew == IF Free = {} THEN GClear ELSE \E u \in R(Free), c \in R(Classes), g \in R(0..60) : New(u, c, g) /\ Put([ev |-> "New", u |-> u, c |-> c, g |-> g])
GDrop == IF held = {} THEN GNew ELSE \E u \in R(held) : Drop(u) /\ Put([ev |-> "Drop", u |-> u])
GPoke == IF held = {} THEN GNew ELSE \E u \in R(held), g \in R(0..60) : Poke(u, g) /\ Put([ev |-> "Poke", u |-> u, g |-> g])
GWrap == IF held = {} THEN GNew ELSE \E p \in R(Slots), u \in R(held) : Wrap(p, u) /\ Put([ev |-> "Wrap", p |-> p, u |-> u])
GLib == \E p \in R(Slots), k \in R(Library), t8 \in R(-8000..8000) : WrapLib(p, k) /\ Put([ev |-> "Lib", p |-> p, k |-> k, t8 |-> t8])
GMisuse == \E what \in R({"type", "planet", "number", "eph_data"}) : Ask /\ Put([ev |-> "Misuse", what |-> what])
Full == {p \in Slots : pls[p].kind # "none"}
Pys == {p \in Slots : pls[p].kind = "py"}
GCopy == \E p \in R(Full), q \in R(Slots), how \in R({"copy", "deepcopy", "pickle"}) :
           IF how # "copy" /\ pls[p].kind = "py" THEN (IF Free = {} THEN GClear ELSE \E u \in R(Free) : Deep(p, q, u) /\ Put([ev |-> "Deep", p |-> p, q |-> q, u |-> u]))
           ELSE Copy(p, q) /\ Put([ev |-> "Copy", p |-> p, q |-> q, how |-> IF how = "pickle" /\ pls[p].kind \in Pythonic THEN "copy" ELSE how])
GPair == IF Pys = {} \/ Cardinality(Free) < 2 THEN GClear
         ELSE \E p, q \in R(Pys), a \in R(Slots), u \in R(Free) : \E b \in R(Slots \ {a}), w \in R(Free \ {u}) :
                LET x == IF pls[p].u = pls[q].u THEN u ELSE w IN DeepPair(p, q, a, b, u, x) /\ Put([ev |-> "Pair", p |-> p, q |-> q, a |-> a, b |-> b, u |-> u, w |-> x])
GGrab == IF Pys = {} THEN GWrap ELSE \E p \in R(Pys) : Grab(p) /\ Put([ev |-> "Grab", p |-> p])
Time(k) == RandomElement(-8000..8000)
GAsk == IF Full = {} THEN GLib ELSE
        \E p \in R(IF Pys = {} \/ OneIn(3) THEN Full ELSE Pys), what \in R(IF OneIn(3) THEN Getters ELSE {"eph", "eph_v", "period", "elements"}), how \in R({"float", "epoch", "default", "int"}), f \in R(IF OneIn(6) THEN {"POSVEL"} ELSE Forms \ {"POSVEL"}), n \in R(0..3) :
          \E t0 \in {Time(hist)}, ts \in {[i \in 1..n |-> Time(i)]} :
             LET t8 == IF how = "int" THEN 8 * (t0 \div 8) ELSE IF how = "default" /\ what \in {"period", "elements"} THEN 0 ELSE t0
             IN Ask /\ Put([ev |-> "Ask", p |-> p, what |-> what, t8 |-> t8, ts |-> ts, f |-> f, how |-> how])
GExtract == IF Full = {} THEN GLib ELSE
        \E p \in R(IF Pys = {} \/ OneIn(3) THEN Full ELSE Pys), asked \in R({"value", "class", "class", "base", "object"} \cup (Library)), c0 \in R(Classes), own \in R(BOOLEAN) :
          LET c == IF own /\ pls[p].kind = "py" THEN objs[pls[p].u].c ELSE c0 IN Ask /\ Put([ev |-> "Extract", p |-> p, asked |-> asked, c |-> c])
Oscs == {p \in Slots : pls[p].kind \in {"osc", "py"}}
GOsc == IF Oscs = {} THEN GWrap ELSE
        \E p \in R(Oscs), q \in R(Slots), t0 \in R(-8000..8000), mu \in R({0, 0, 70, 400, 9000}) :
          LET t8 == IF pls[p].kind = "osc" THEN pls[p].t8 ELSE t0 IN Osculate(p, q, t8, mu) /\ Put([ev |-> "Osc", p |-> p, q |-> q, t8 |-> t8, mu |-> mu])
GCensus == Ask /\ Put([ev |-> "Census"])
Pick(h) == CASE Len(h) = 1 -> 1 [] Len(h) \in {2, 3} -> 4 [] Len(h) \in {4, 5} -> 8 [] OTHER -> RandomElement(1..40)
GenNext == Len(hist) < Depth /\ \E k \in {Pick(hist)} :
   \/ k \in {1, 2} /\ GClass
   \/ k = 3 /\ GChange
   \/ k \in {4, 5} /\ GNew
   \/ k = 6 /\ GDrop
   \/ k = 7 /\ GPoke
   \/ k \in {8, 9, 10, 11} /\ GWrap
   \/ k \in {12, 13} /\ GLib
   \/ k = 14 /\ GMisuse
   \/ k \in {15, 16, 17} /\ GCopy
   \/ k = 18 /\ GPair
   \/ k = 19 /\ GGrab
   \/ k \in 20..30 /\ GAsk
   \/ k \in 31..34 /\ GExtract
   \/ k \in 35..37 /\ GOsc
   \/ k \in {38, 39} /\ GCensus
   \/ k = 40 /\ GClear
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
