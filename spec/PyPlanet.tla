------------------------------ MODULE PyPlanet ------------------------------
(***************************************************************************)
(* Planets whose ephemerides are Python objects. An object has a class,    *)
(* that says which optional methods there are, and a number g that all its *)
(* answers depend on. A planet made from an object refers to it; a copy    *)
(* refers to the same object, a deep copy to its own. Times are in eighths *)
(* of a day. Planets may also be those of the library.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NObjs, NSlots, NClasses
VARIABLES cls,     \* cls[c]: class -> [method -> "yes", "no", "data" (not callable), "boom" (raises), "bad" (wrong numbers)]
          objs,    \* objs[u] = [c, g]; those not alive have c = 0
          held,    \* the objects the user has a reference to
          pls      \* pls[p] = [kind, ...]
vars == <<cls, objs, held, pls>>
Classes == 1..NClasses
Objs == 1..NObjs
Slots == 1..NSlots
Getters == {"name", "info", "muc", "mus", "radius", "safe"}
Optional == Getters \cup {"eph_v", "period", "elements"}
Methods == Optional \cup {"eph"}
Statuses == {"yes", "no", "data", "boom"}
Library == {"kepler", "jpl", "null", "vsop", "tle", "spice", "de440s"}
\* library planets written in Python
Pythonic == {"tle", "spice", "de440s"}
----------------------------------------------------------------------------
\* ephemerides: distance 7 k, whole numbers, elliptic or hyperbolic
Pos(g) == <<2 * (g + 1), 3 * (g + 1), 6 * (g + 1)>>
Vel(g, t8) == <<-3, 2 + (t8 % 5), 1 + (g % 4)>>
Muc(g) == 50 * (g + 1) * (1 + (g % 4))
V2(g, t8) == LET v == Vel(g, t8) IN v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Bound(g, t8, mu) == V2(g, t8) * 7 * (g + 1) < 2 * mu
----------------------------------------------------------------------------
None == [kind |-> "none", u |-> 0]
OfObj(u) == [kind |-> "py", u |-> u]
OfLib(k) == [kind |-> k, u |-> 0]
OfKep(base, nk, muc, mus, radius, safe, t8, r, v) ==
   [kind |-> "osc", u |-> 0, base |-> base, nk |-> nk, muc |-> muc, mus |-> mus, radius |-> radius, safe |-> safe, t8 |-> t8, r |-> r, v |-> v]
Used == {pls[p].u : p \in Slots} \ {0}
Alive == held \cup Used
Free == Objs \ Alive
\* what has no reference is gone
Sweep(o, h, pp) == [u \in Objs |-> IF u \in h \/ (\E p \in Slots : pp[p].u = u) THEN o[u] ELSE [c |-> 0, g |-> 0]]
Settle(h, pp, o) == held' = h /\ pls' = pp /\ objs' = Sweep(o, h, pp)
----------------------------------------------------------------------------
\* answers: [out, mode, val]: exact numbers, or a computation
Say(v) == [out |-> {"ok"}, mode |-> "exact", val |-> v]
Compute == [out |-> {"ok"}, mode |-> "computed", val |-> <<>>]
NotANumber == [out |-> {"ok"}, mode |-> "nan", val |-> <<>>]
Fails(S) == [out |-> S, mode |-> "none", val |-> <<>>]
Callable(s) == s \in {"yes", "boom", "bad"}
Own(g, m) == CASE m = "muc" -> <<Muc(g)>> [] m = "mus" -> <<10 * g + 2>> [] m = "radius" -> <<10 * g + 3>> [] m = "safe" -> <<10 * g + 4>> [] m = "name" -> <<10 * g + 5>> [] OTHER -> <<10 * g + 6>>
\* (a planet without a name is called like its class, one without information has none: -1 here)
Get(u, m) == LET s == cls[objs[u].c][m] IN
   CASE s = "boom" -> Fails({"KeyError"}) [] Callable(s) -> Say(Own(objs[u].g, m)) [] OTHER -> Say(<<-1>>)
Eph(u, t8) == LET s == cls[objs[u].c]["eph"] IN
   CASE s = "boom" -> Fails({"KeyError"}) [] s = "bad" -> Fails({"any"}) [] s = "yes" -> Say(Pos(objs[u].g) \o Vel(objs[u].g, t8)) [] OTHER -> Fails({"NotImplementedError"})
RECURSIVE Rows(_, _, _)
Rows(u, ts, own) == IF ts = <<>> THEN <<>> ELSE (IF own THEN <<objs[u].g, Head(ts), 7, 7, 7, 7>> ELSE Pos(objs[u].g) \o Vel(objs[u].g, Head(ts))) \o Rows(u, Tail(ts), own)
EphV(u, ts) == LET s == cls[objs[u].c]["eph_v"] IN
   CASE s = "boom" -> Fails({"KeyError"}) [] s = "bad" -> Fails({"ValueError"}) [] s = "yes" -> Say(Rows(u, ts, TRUE))
     [] OTHER -> IF ts = <<>> THEN Say(<<>>) ELSE IF Eph(u, 0).mode # "exact" THEN Eph(u, 0) ELSE Say(Rows(u, ts, FALSE))
\* what needs the ephemerides and the central body: fails as either of them fails
Both(u, t8, ans) == LET S == {a \in {Eph(u, t8), Get(u, "muc")} : a.mode # "exact"} IN IF S = {} THEN ans ELSE Fails(UNION {a.out : a \in S})
Period(u, t8) == LET s == cls[objs[u].c]["period"] IN
   CASE s = "boom" -> Fails({"KeyError"}) [] s = "bad" -> Fails({"any"}) [] s = "yes" -> Say(<<1000 * objs[u].g + t8>>)
     [] OTHER -> IF ~Callable(cls[objs[u].c]["muc"]) THEN Fails({"NotImplementedError"})
                 ELSE Both(u, t8, IF Bound(objs[u].g, t8, Muc(objs[u].g)) THEN Compute ELSE NotANumber)
Forms == {"KEP_F", "KEP_M", "MEE", "MEE_R", "POSVEL"}
FormNo(f) == CASE f = "KEP_F" -> 1 [] f = "KEP_M" -> 2 [] f = "MEE" -> 3 [] f = "MEE_R" -> 4 [] OTHER -> 5
Elements(u, t8, f) == LET s == cls[objs[u].c]["elements"] IN
   CASE s = "boom" -> Fails({"KeyError"}) [] s = "bad" -> Fails({"any"}) [] s = "yes" -> Say(<<objs[u].g, t8, FormNo(f), 1, 2, 3>>)
     [] OTHER -> IF ~Callable(cls[objs[u].c]["muc"]) THEN Fails({"NotImplementedError"})
                 ELSE Both(u, t8, IF f = "POSVEL" \/ (f = "KEP_M" /\ ~Bound(objs[u].g, t8, Muc(objs[u].g))) THEN Fails({"any"}) ELSE Compute)
\* planets that are not the user's
LibGet(k, m) == CASE k = "null" -> (IF m \in {"muc", "mus", "radius", "safe"} THEN Say(<<-1>>) ELSE Compute) [] OTHER -> Compute
OscGet(p, m) == CASE m = "muc" -> Say(<<p.muc>>) [] m = "mus" -> Say(<<p.mus>>) [] m = "radius" -> Say(<<p.radius>>) [] m = "safe" -> Say(<<p.safe>>) [] OTHER -> Compute
\* no central body: nothing to compute a period or elements from
Bodiless == {"null", "vsop", "spice", "de440s"}
Refused(k) == Fails(IF k \in Pythonic THEN {"NotImplementedError"} ELSE {"any"})
LibPeriod(k) == IF k \in Bodiless THEN Refused(k) ELSE Compute
LibElements(k, f) == IF k \in Bodiless THEN Refused(k) ELSE IF f = "POSVEL" THEN Fails({"any"}) ELSE Compute
OscBound(p) == LET R2 == p.r[1] * p.r[1] + p.r[2] * p.r[2] + p.r[3] * p.r[3]  V == p.v[1] * p.v[1] + p.v[2] * p.v[2] + p.v[3] * p.v[3]
               IN \E R \in 1..2000 : R * R = R2 /\ V * R < 2 * p.muc
Answer(p, what, t8, ts, f) ==
   CASE p.kind = "py" -> (CASE what \in Getters -> Get(p.u, what) [] what = "eph" -> Eph(p.u, t8) [] what = "eph_v" -> EphV(p.u, ts)
                            [] what = "period" -> Period(p.u, t8) [] OTHER -> Elements(p.u, t8, f))
     [] p.kind = "osc" -> (CASE what \in Getters -> OscGet(p, what) [] what \in {"eph", "eph_v"} -> Compute
                            [] what = "period" -> (IF OscBound(p) THEN Compute ELSE NotANumber)
                            [] OTHER -> (IF f = "POSVEL" \/ (f = "KEP_M" /\ ~OscBound(p)) THEN Fails({"any"}) ELSE Compute))
     [] OTHER -> (CASE what \in Getters -> LibGet(p.kind, what) [] what \in {"eph", "eph_v"} -> Compute [] what = "period" -> LibPeriod(p.kind)
                   [] OTHER -> LibElements(p.kind, f))
\* extraction by type: the class of a user's object, a base class of it, any Python object, a type of the library, not a type at all
Extract(p, asked, c) ==
   CASE asked = "value" -> "TypeError"
     [] asked = "class" -> IF p.kind = "py" /\ objs[p.u].c = c THEN "it" ELSE "none"
     [] asked = "base" -> "none"
     [] asked = "object" -> IF p.kind = "py" \/ p.kind \in Pythonic THEN "it" ELSE "none"
     [] OTHER -> IF p.kind = asked \/ (p.kind = "osc" /\ asked = "kepler") THEN "it" ELSE "none"
----------------------------------------------------------------------------
NewClass(c, st) == (\A u \in Alive : objs[u].c # c) /\ cls' = [cls EXCEPT ![c] = st] /\ UNCHANGED <<objs, held, pls>>
Change(c, m, s) == cls' = [cls EXCEPT ![c][m] = s] /\ UNCHANGED <<objs, held, pls>>
New(u, c, g) == u \in Free /\ held' = held \cup {u} /\ objs' = [objs EXCEPT ![u] = [c |-> c, g |-> g]] /\ UNCHANGED <<cls, pls>>
Drop(u) == u \in held /\ Settle(held \ {u}, pls, objs) /\ UNCHANGED cls
Poke(u, g) == u \in held /\ objs' = [objs EXCEPT ![u].g = g] /\ UNCHANGED <<cls, held, pls>>
\* a planet of a held object: the class must have ephemerides
Wrap(p, u) == /\ u \in held
              /\ (IF Callable(cls[objs[u].c]["eph"]) THEN Settle(held, [pls EXCEPT ![p] = OfObj(u)], objs) /\ UNCHANGED cls ELSE UNCHANGED vars)
WrapOut(u) == IF Callable(cls[objs[u].c]["eph"]) THEN "ok" ELSE "NotImplementedError"
WrapLib(p, k) == Settle(held, [pls EXCEPT ![p] = OfLib(k)], objs) /\ UNCHANGED cls
Copy(p, q) == Settle(held, [pls EXCEPT ![q] = pls[p]], objs) /\ UNCHANGED cls
\* deep copies have their own objects: those in one container share when the planets they come from share
Deep(p, q, u) == IF pls[p].kind # "py" THEN Copy(p, q)
                 ELSE u \in Free /\ Settle(held, [pls EXCEPT ![q] = OfObj(u)], [objs EXCEPT ![u] = objs[pls[p].u]]) /\ UNCHANGED cls
DeepPair(p, q, a, b, u, w) ==
   /\ a # b /\ {u, w} \subseteq Free /\ pls[p].kind = "py" /\ pls[q].kind = "py" /\ (u = w) = (pls[p].u = pls[q].u)
   /\ Settle(held, [pls EXCEPT ![a] = OfObj(u), ![b] = OfObj(w)], [objs EXCEPT ![u] = objs[pls[p].u], ![w] = objs[pls[q].u]])
   /\ UNCHANGED cls
\* taking hold again of the object inside
Grab(p) == IF pls[p].kind = "py" THEN held' = held \cup {pls[p].u} /\ UNCHANGED <<cls, objs, pls>> ELSE UNCHANGED vars
Clear(p) == Settle(held, [pls EXCEPT ![p] = None], objs) /\ UNCHANGED cls
Ask == UNCHANGED vars
\* the osculating planet: needs the central body (or is told it), the ephemerides, and the rest
OscParts(p, t8, mu) == (IF mu = 0 THEN {Get(p.u, "muc")} ELSE {}) \cup {Eph(p.u, t8)} \cup {Get(p.u, m) : m \in {"name", "mus", "radius", "safe"}}
OscOut(p, t8, mu) ==
   IF p.kind = "osc" THEN {"ok"}
   ELSE LET bad == {a \in OscParts(p, t8, mu) : a.mode # "exact"}
            S == UNION {a.out : a \in bad} \cup (IF mu = 0 /\ Get(p.u, "muc") = Say(<<-1>>) THEN {"ValueError"} ELSE {})
        IN IF S = {} THEN {"ok"} ELSE S
OscOf(p, t8, mu) ==
   IF p.kind = "osc" THEN [p EXCEPT !.nk = @ + 1, !.muc = IF mu = 0 THEN @ ELSE mu]
   ELSE LET g == objs[p.u].g
            num(m) == Get(p.u, m).val[1]
        IN OfKep(num("name"), 1, IF mu = 0 THEN Muc(g) ELSE mu, num("mus"), num("radius"), num("safe"), t8, Pos(g), Vel(g, t8))
\* (an osculating planet gives back whole numbers only at its own epoch)
CanOsc(p, t8) == p.kind = "py" \/ (p.kind = "osc" /\ p.t8 = t8)
Osculate(p, q, t8, mu) == /\ CanOsc(pls[p], t8)
                          /\ (IF OscOut(pls[p], t8, mu) = {"ok"} THEN Settle(held, [pls EXCEPT ![q] = OscOf(pls[p], t8, mu)], objs) /\ UNCHANGED cls ELSE UNCHANGED vars)
Plain == [m \in Methods |-> IF m = "eph" THEN "yes" ELSE "no"]
Init == cls = [c \in Classes |-> Plain] /\ objs = [u \in Objs |-> [c |-> 0, g |-> 0]] /\ held = {} /\ pls = [p \in Slots |-> OfLib("null")]
=============================================================================
