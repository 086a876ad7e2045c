----------------------------- MODULE LambertObjGen --------------------------
EXTENDS LambertObj, Json, IOUtils
CONSTANTS Depth, OutFile
VARIABLE hist
genvars == <<vars, hist>>
GenInit == Init /\ hist = <<[ev |-> "Start"]>>
Do(e) == hist' = Append(hist, e)
\* (operators with an argument: TLC evaluates constant definitions once and for all)
Mostly(h) == {RandomElement({"pos", "pos2", "pos3", "pos4", "other"})}
Num(h) == {IF x = "other" THEN RandomElement(Numbers) ELSE "pos" : x \in Mostly(h)}
Geo(h) == {IF x = "other" THEN RandomElement(Geos) ELSE RandomElement({"ok", "flat", "ok"}) : x \in {RandomElement({"pos", "p", "other"})}}
GBuild == \E s \in {RandomElement(Slots)}, a \in Num(hist), b \in Num(hist), g \in Geo(hist), c \in {RandomElement({0, 1})}, m \in {RandomElement(0..4)} :
            Build(s, a, b, g) /\ Do([ev |-> "Build", s |-> s, tof |-> a, mu |-> b, geo |-> g, cw |-> c, m |-> m])
GCopy == \E s \in {RandomElement(Slots)}, t \in {RandomElement(Slots)}, h \in {RandomElement({"ctor", "assign"})} : Copy(s, t) /\ Do([ev |-> "Copy", s |-> s, t |-> t, how |-> h])
GMove == \E s \in {RandomElement(Slots)}, t \in {RandomElement(Slots)}, h \in {RandomElement({"ctor", "assign"})} : Move(s, t) /\ Do([ev |-> "Move", s |-> s, t |-> t, how |-> h])
GSave == \E s \in {RandomElement(Slots)}, f \in {RandomElement(Files)}, h \in {RandomElement({"text", "binary"})} : Save(s, f) /\ Do([ev |-> "Save", s |-> s, f |-> f, how |-> h])
GLoad == \E t \in {RandomElement(Slots)}, f \in {RandomElement(Files)}, h \in {RandomElement({"fresh", "over"})} : Load(f, t) /\ Do([ev |-> "Load", f |-> f, t |-> t, how |-> h])
GLook == \E s \in {RandomElement(Slots)} : Look(s) /\ Do([ev |-> "Look", s |-> s])
GenNext == Len(hist) < Depth /\ (GBuild \/ GCopy \/ GMove \/ GSave \/ GLoad \/ GLook)
GenSpec == GenInit /\ [][GenNext]_genvars
Emit == (Len(hist) = Depth) =>
          Serialize(ToJson(hist) \o "\n", OutFile,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
