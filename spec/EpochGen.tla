------------------------------ MODULE EpochGen ------------------------------
EXTENDS Epoch, Json, IOUtils
CONSTANTS Depth, OutFile, Strings
VARIABLE hist
genvars == <<vars, hist>>
GenInit == Init /\ hist = <<[ev |-> "Start"]>>
Do(e) == hist' = Append(hist, e)
R(S) == {RandomElement(S)}
\* (random choices live in operators with an argument: TLC evaluates constant definitions once and for all)
OneIn(k) == RandomElement(1..k) = 1
Year(h) == IF OneIn(3) THEN RandomElement({0, 1, 4, 100, 400, 1600, 1700, 1900, 1969, 1970, 1999, 2000, 2001, 2004, 2100, 9999}) ELSE RandomElement(0..9999)
AnyYear(h) == IF OneIn(4) THEN RandomElement({-32767, 32767, -1, -4, -100, -400, -4713, 32764, -32768, 32768, 67536, -63536} \cup {RandomElement(-32767..32767)}) ELSE Year(h)
Month(h) == IF OneIn(12) THEN RandomElement({0, 13, 14, 255, 257, 258, 513}) ELSE IF OneIn(3) THEN RandomElement({1, 2, 3, 12}) ELSE RandomElement(1..12)
Day(h) == IF OneIn(12) THEN RandomElement({0, 32, 33, 255, 257, 285, 512}) ELSE IF OneIn(2) THEN RandomElement({1, 28, 29, 30, 31}) ELSE RandomElement(1..31)
Small(k) == IF OneIn(3) THEN RandomElement({0, k - 1, 1}) ELSE RandomElement(0..(k - 1))
Wide(k, big) == IF OneIn(4) THEN RandomElement({-1, k, k + 1, big, -big} \cup {RandomElement(-big..big)}) ELSE Small(k)
Fields(h) == <<AnyYear(h), Month(h), Day(h), Wide(24, 200000), Wide(60, 10000000), Wide(60, 1000000000), Wide(1000, 1000000000), Wide(1000, 1000000000)>>
TextFields(h) == <<Year(h), IF OneIn(10) THEN RandomElement({0, 13, 99}) ELSE RandomElement(1..12), IF OneIn(10) THEN RandomElement({0, 32, 99}) ELSE Day(h) % 32,
                   Small(24), Small(60), Small(60), 0>>
Frac(h, nd) == IF nd = 0 THEN 0 ELSE IF OneIn(3) THEN RandomElement({0, 1, (Pow10(nd - 1) * 10) - 1, Pow10(nd - 1)}) ELSE RandomElement(0..((Pow10(nd - 1) * 10) - 1))
Kinds == {"us", "ns", "s", "min", "h", "days", "ddays", "epdays", "epsec", "dsec"}
Dur(h, kind) == CASE kind \in {"us", "ns"} -> <<RandomElement({0, 0, 1, -1} \cup {RandomElement(-5000..5000)}), RandomElement({0, 86399, -86399} \cup {RandomElement(-86399..86399)}), RandomElement({0, 1, -1, 999999, -999999} \cup {RandomElement(-999999..999999)})>>
                [] kind = "s" -> <<0, RandomElement({0, 1, -1, 86400, -86400, 1000000000, -1000000000} \cup {RandomElement(-1000000000..1000000000)}), 0>>
                [] kind = "min" -> <<0, 60 * RandomElement(-10000000..10000000), 0>>
                [] kind = "h" -> <<0, 3600 * RandomElement({1, -1, 24, 25, -24} \cup {RandomElement(-100000..100000)}), 0>>
                [] kind = "days" -> <<RandomElement({1, -1, 28, 29, 365, 366, 36524, 146097} \cup {RandomElement(-300000..300000)}), 0, 0>>
                [] kind \in {"ddays", "epdays"} -> <<RandomElement({0, 1, -1} \cup {RandomElement(-90000..90000)}), 675 * RandomElement({0, 1, 64, -64, 127} \cup {RandomElement(-127..127)}), 0>>
                [] OTHER -> <<0, RandomElement(-1000000..1000000), 15625 * RandomElement({0, 1, 32, -32} \cup {RandomElement(-63..63)})>>
\* the calendar years all this keeps to: the library's own range is wider than what TLC's integers or int64 nanoseconds hold
Sane(e) == e[1] \in -13000000..13000000
GCal == \E s \in R(Slots), f \in {Fields(hist)} : Cal(s, f) /\ Do([ev |-> "Cal", s |-> s, f |-> f])
GCount == \E s \in R(Slots), t \in R({"MJD2000", "MJD", "JD"}), d \in R({0, -1, 1, 51544, 2451544, 2451545, -51544} \cup {RandomElement(-900000..3000000)}), k \in R({0, 64, 1, 127} \cup {RandomElement(0..127)}) :
            Count(s, t, d, k) /\ Do([ev |-> "Count", s |-> s, type |-> t, d |-> d, k |-> k])
GSince == \E s \in R(Slots), k \in R(Kinds) : \E x \in {Dur(hist, k)} : Since(s, x) /\ Do([ev |-> "Since", s |-> s, kind |-> k, x |-> x])
GShift == \E s \in R(Slots), k \in R(Kinds), g \in R({1, -1}) : \E x \in {Dur(hist, k)} : Shift(s, x, g) /\ Sane(ep'[s]) /\ Do([ev |-> "Shift", s |-> s, kind |-> k, x |-> x, sign |-> g])
GShiftTo == \E s \in R(Slots), t \in R(Slots), k \in R(Kinds), g \in R({1, -1}) : \E x \in {Dur(hist, k)} : ShiftTo(s, t, x, g) /\ Sane(ep'[t]) /\ Do([ev |-> "ShiftTo", s |-> s, t |-> t, kind |-> k, x |-> x, sign |-> g])
GNudge == \E s \in R(Slots), t \in R(Slots), u \in R({-3, -1, 0, 1, 2}), k \in R({"us", "ns"}) : \E x \in {<<0, 0, u>>} : ShiftTo(s, t, x, 1) /\ Sane(ep'[t]) /\ Do([ev |-> "ShiftTo", s |-> s, t |-> t, kind |-> k, x |-> x, sign |-> 1])
GCopy == \E s \in R(Slots), t \in R(Slots), h \in R({"copy", "tp", "move"}) : Copy(s, t) /\ Do([ev |-> "Copy", s |-> s, t |-> t, how |-> h])
GSave == \E s \in R(Slots), f \in R(Files), h \in R({"text", "binary"}) : Save(s, f) /\ Do([ev |-> "Save", s |-> s, f |-> f, how |-> h])
GLoad == \E t \in R(Slots), f \in R(Files) : Load(f, t) /\ Do([ev |-> "Load", f |-> f, t |-> t])
GQuery == \E s \in R(Slots), t \in R(Slots) : Query(s, t) /\ Do([ev |-> "Query", s |-> s, t |-> t])
GParse == \E s \in R(Slots), k \in R(2..6), nd0 \in R(0..6), hu \in {IF OneIn(4) THEN RandomElement(1..9) ELSE 0}, g \in {TextFields(hist)} :
            LET nd == IF k = 6 THEN nd0 ELSE 0 IN \E fr \in {Frac(hist, nd)} : LET f == Append(g, fr) IN
               Parse(s, f, k, nd, hu) /\ Do([ev |-> "Parse", s |-> s, f |-> f, k |-> k, nd |-> nd, hurt |-> hu, at |-> RandomElement(0..25), str |-> Text(f, k, nd)])
GPrint == \E s \in R(Slots) : Writable(ep[s]) /\ UNCHANGED vars /\ Do([ev |-> "Print", s |-> s])
GReparse == \E s \in R(Slots), t \in R(Slots) : Reparse(s, t) /\ Do([ev |-> "Reparse", s |-> s, t |-> t])
GenNext == Len(hist) < Depth /\
   (IF Strings = 1 THEN GParse \/ GPrint \/ GReparse \/ GCal \/ GCount \/ GShift
    ELSE GCal \/ GCount \/ GSince \/ GShift \/ GShiftTo \/ GNudge \/ GCopy \/ GSave \/ GLoad \/ GQuery \/ (\E s \in R(Slots), t \in R(Slots) : s # t /\ ep[s][1] = ep[t][1] /\ Query(s, t) /\ Do([ev |-> "Query", s |-> s, t |-> t])))
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
