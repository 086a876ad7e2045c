----------------------------- MODULE TACacheGen -----------------------------
(* Scripts for three threads: which questions each asks, in which order, and how long it dawdles before asking (w) and while *)
(* an integrator is being built for it (b), in units of the harness. *)
EXTENDS TACache, Json, IOUtils
CONSTANTS NThreads, MaxOps, Depth, OutFile
VARIABLES hist, n
genvars == <<cached, hist, n>>
R(S) == {RandomElement(S)}
OneIn(k) == RandomElement(1..k) = 1
\* few tolerances and caches at a time: meetings are likely
GenInit == \E f \in {1, 2, 4}, m \in {1, 2, 3}, c0 \in 0..3, g \in {"far", "next"} : /\ Init /\ n = [f |-> f, m |-> m, c0 |-> c0]
                                                      /\ hist = <<[ev |-> "Start", gap |-> g]>>
Pause(h) == IF OneIn(2) THEN 0 ELSE RandomElement(1..4)
Cache(h) == ((n.c0 + RandomElement(0..(n.f - 1))) % 4) + 1
Op(h) == IF OneIn(2) THEN "Get" ELSE RandomElement({"Get", "Dim", "Dim", "Dim", "Use", "Bad"})
GAsk == \E t \in R(1..NThreads), o \in {Op(hist)}, c \in {Cache(hist)}, tol \in R(1..n.m), b \in R(BadTols), w \in {Pause(hist)}, z \in {Pause(hist)} :
          /\ CASE o \in {"Get", "Use"} -> Get(c, tol) [] o = "Dim" -> Dim(c) [] OTHER -> Bad(c)
          /\ hist' = Append(hist, [ev |-> "Ask", th |-> t, op |-> o, c |-> c, t |-> tol, bad |-> b, w |-> w, b |-> z])
          /\ n' = n
GenNext == Len(hist) < Depth /\ GAsk
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
