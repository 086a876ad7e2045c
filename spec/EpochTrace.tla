----------------------------- MODULE EpochTrace -----------------------------
EXTENDS Epoch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
\* after every step: every epoch, read off its time point
Seen == E.eps = [s \in Slots |-> ep'[s]]
Answer(ok) == E.out = IF ok THEN "ok" ELSE "refused"
TStart == IsEvent("Start") /\ ep' = [s \in Slots |-> Zero] /\ files' = [f \in Files |-> Zero] /\ Seen
TCal == IsEvent("Cal") /\ Cal(E.s, E.f) /\ Answer(DateOk(E.f)) /\ Seen
TCount == IsEvent("Count") /\ Count(E.s, E.type, E.d, E.k) /\ Seen
TSince == IsEvent("Since") /\ Since(E.s, E.x) /\ Seen
TShift == IsEvent("Shift") /\ Shift(E.s, E.x, E.sign) /\ Seen
TShiftTo == IsEvent("ShiftTo") /\ ShiftTo(E.s, E.t, E.x, E.sign) /\ Seen
TCopy == IsEvent("Copy") /\ Copy(E.s, E.t) /\ Seen
TSave == IsEvent("Save") /\ Save(E.s, E.f) /\ Seen
TLoad == IsEvent("Load") /\ Load(E.f, E.t) /\ Seen
TParse == /\ IsEvent("Parse") /\ Parse(E.s, E.f, E.k, E.nd, E.hurt)
          /\ E.str = Text(E.f, E.k, E.nd)
          /\ Answer(E.hurt = 0 /\ DateOk(Meant(E.f, E.k, E.nd)))
          /\ Seen
TPrint == IsEvent("Print") /\ Writable(ep[E.s]) /\ UNCHANGED vars /\ {E.text[j] : j \in DOMAIN E.text} = {Written(ep[E.s])} /\ Seen
TReparse == IsEvent("Reparse") /\ Reparse(E.s, E.t) /\ Seen
\* a day count is a double: right to its last digits (counts stay below 2^24 days: one unit is under 400 microseconds)
Near(a, b) == LET x == Minus(a, b) IN \/ x[1] = 0 /\ x[2] = 0 /\ x[3] <= 400
                                      \/ x[1] = -1 /\ x[2] = 86399 /\ x[3] >= 1000000 - 400
TQuery == /\ IsEvent("Query") /\ Query(E.s, E.t)
          /\ E.diff = Minus(ep[E.s], ep[E.t])
          /\ E.order = Order(ep[E.s], ep[E.t])
          /\ Near(E.mjd2000, Plus(ep[E.s], Offset("MJD2000")))
          /\ Near(E.mjd, Plus(ep[E.s], Offset("MJD")))
          /\ Near(E.jd, Plus(ep[E.s], Offset("JD")))
          /\ E.ulp <= 2        \* and, against the exact count in extended precision, within two units in the last place
          /\ Seen
TraceNext == TStart \/ TCal \/ TCount \/ TSince \/ TShift \/ TShiftTo \/ TCopy \/ TSave \/ TLoad \/ TParse \/ TPrint \/ TReparse \/ TQuery
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
