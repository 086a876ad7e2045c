----------------------------- MODULE PyPlanetMC -----------------------------
(* Small instances: who shares what with whom, and for how long.           *)
EXTENDS PyPlanet
CONSTANTS MaxG, Deeper
Gs == 0..MaxG
Mixed == [Plain EXCEPT !["muc"] = "yes", !["name"] = "boom"]
MCNext == \/ \E c \in Classes, m \in (IF Deeper THEN {"muc", "eph"} ELSE {"muc"}), s \in {"yes", "no"} : Change(c, m, s)
          \/ \E u \in Objs, c \in Classes, g \in Gs : New(u, c, g)
          \/ \E u \in Objs : Drop(u)
          \/ \E u \in Objs, g \in Gs : Poke(u, g)
          \/ \E p \in Slots, u \in Objs : Wrap(p, u)
          \/ \E p, q \in Slots : Copy(p, q)
          \/ \E p, q \in Slots, u \in Objs : Deep(p, q, u)
          \/ \E p, q, a, b \in Slots, u, w \in Objs : DeepPair(p, q, a, b, u, w)
          \/ \E p \in Slots : Grab(p) \/ Clear(p)
          \/ \E p, q \in Slots, mu \in (IF Deeper THEN {0, 7} ELSE {0}) : Osculate(p, q, 0, mu)
MCInit == Init
MCSpec == MCInit /\ [][MCNext]_vars
Few == \A p \in Slots : pls[p].kind = "osc" => pls[p].nk <= 1
\* an object lives exactly as long as somebody refers to it
Living == \A u \in Objs : (objs[u].c # 0) = (u \in Alive)
\* every question has an answer
Total == \A p \in Slots : pls[p].kind # "none" =>
   \A what \in Methods : LET a == Answer(pls[p], what, 0, <<0, 3>>, "MEE") IN a.mode = "none" <=> "ok" \notin a.out
\* the period is told, or follows from the central body, or there is none
Ladder == \A p \in Slots : pls[p].kind = "py" =>
   LET c == cls[objs[pls[p].u].c] IN (Answer(pls[p], "period", 0, <<>>, "MEE").out = {"NotImplementedError"}) => c["muc"] # "yes" \/ c["eph"] # "yes"
\* what changes the answers of a planet: its object, its class, or becoming another planet
Looks(p) == IF p.kind = "none" THEN {} ELSE {<<what, Answer(p, what, 0, <<1>>, "MEE")>> : what \in Methods}
Isolation == [][\A p \in Slots : Looks(pls[p])' # Looks(pls[p]) =>
   \/ pls[p]' # pls[p]
   \/ pls[p].kind = "py" /\ (objs[pls[p].u]' # objs[pls[p].u] \/ cls'[objs[pls[p].u].c] # cls[objs[pls[p].u].c])]_vars
\* a deep copy shares its object with nobody older
Separate == [][\A p \in Slots : (pls'[p].u # 0 /\ pls'[p].u \notin Alive) => objs[pls'[p].u].c = 0]_vars
=============================================================================
