---------------------------- MODULE KepPlanetGen ----------------------------
EXTENDS KepPlanet, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
R(S) == {RandomElement(S)}
OneIn(k) == RandomElement(1..k) = 1
GenInit == Init /\ hist = <<[ev |-> "Start"]>>
Do(e) == hist' = Append(hist, e)
Deg(h) == RandomElement({0, 90, 180, 270} \cup {RandomElement(0..359)} \cup {RandomElement(0..359)})
Inc(h) == RandomElement({0, 90, 180, 5, 175, 179, 1} \cup {RandomElement(1..179) : j \in 1..8})
Pick(h) == LET via == RandomElement(Vias) c == RandomElement(IF via = "KEP_M" THEN Ell ELSE Ell \cup Hyp) i == Inc(h) IN
   [via |-> via, cls |-> c, unit |-> RandomElement(Units), i |-> i, W |-> IF Flat(i) THEN 0 ELSE Deg(h), w |-> IF c = "circ" THEN 0 ELSE Deg(h),
    pos |-> (IF via = "KEP_M" THEN Deg(h) ELSE RandomElement(({0, 90, 180} \cap EL!Fs(c)) \cup {RandomElement(EL!Fs(c))} \cup {RandomElement(EL!Fs(c))}))
            + (IF via = "POSVEL" THEN 0 ELSE 360 * RandomElement(-2..2)),
    ref |-> RandomElement({0, RandomElement(-5000..5000)}), turn |-> RandomElement({7, 48, 365, 3000, 15581})]
GMake == \E s \in R(Slots) : \E p \in {Pick(hist)} : Make(s, p) /\ Do([ev |-> "Make", s |-> s] @@ p)
GBad == \E b \in R(BadKinds) :
        \E via \in R(CASE b = "mean_unbound" -> {"KEP_M"} [] b = "asymptote" -> {"KEP_F", "MEQ", "MEQ_R"} [] b = "type" -> {"POSVEL"} [] OTHER -> {"KEP_F", "KEP_M", "MEQ", "MEQ_R"}) :
        \E c \in R(CASE b \in {"mean_unbound", "asymptote"} -> Hyp [] OTHER -> (Ell \cup Hyp) \ {"circ"}), i \in R(10..170), f \in R(0..359) :
          Refuse /\ Do([ev |-> "Bad", kind |-> b, via |-> via, cls |-> c, i |-> i, f |-> IF b = "asymptote" THEN LET z == EL!Beyond(c) IN RandomElement(z..(360 - z)) ELSE IF b = "type" THEN 10 ELSE f])
GAssign == \E s \in R(Slots), t \in R(Slots) : Assign(s, t) /\ Do([ev |-> "Assign", s |-> s, t |-> t])
Grid(h) == RandomElement(-6000..6000)
GEph == \E s \in R(Slots), k0 \in R({0, 1, 2}), f \in R({"mjd", "epoch", "direct"}) :
   \E k \in {IF k0 = 0 THEN pl[s].ref ELSE IF k0 = 1 THEN pl[s].ref + RandomElement(-60..60) ELSE Grid(hist)} :
     Ask /\ Do([ev |-> "Eph", s |-> s, k |-> k, form |-> f])
GEphV == \E s \in R(Slots), n \in R(0..5) : \E ks \in {[j \in 1..n |-> Grid(j)]} : Ask /\ Do([ev |-> "EphV", s |-> s, ks |-> ks])
GPeriod == \E s \in R(Slots), k \in {Grid(hist)}, f \in R({"mjd", "epoch", "direct"}) : Ask /\ Do([ev |-> "Period", s |-> s, k |-> k, form |-> f])
GElements == \E s \in R(Slots), k \in {Grid(hist)}, f \in R({"mjd", "epoch", "direct"}), el \in R(ElTypes) :
   Asked(pl[s], el) /\ Ask /\ Do([ev |-> "Elements", s |-> s, k |-> k, form |-> f, el |-> el])
GGet == \E s \in R(Slots) : Ask /\ Do([ev |-> "Get", s |-> s])
GenNext == Len(hist) < Depth /\ (GMake \/ (OneIn(3) /\ GAssign) \/ GBad \/ GEph \/ (OneIn(2) /\ GEphV) \/ (OneIn(2) /\ GPeriod) \/ GElements \/ (OneIn(3) /\ GGet))
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
