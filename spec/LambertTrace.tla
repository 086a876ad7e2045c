----------------------------- MODULE LambertTrace ---------------------------
EXTENDS Lambert, Json, IOUtils
CONSTANT Focus      \* "sound" (C07): each solution flies; "complete" (C08): the right solutions, each once, in order
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
ToSet(s) == {s[j] : j \in DOMAIN s}
TStart == IsEvent("Start") /\ Start(E.th, E.dir, E.turns, E.frac)
\* what every solution of every problem must satisfy: d is the direction of motion asked for
Flies(d) == /\ ToSet(E.out) \subseteq {"ok"}
            /\ E.fly <= TolFly               \* arrives at the second place, with the second velocity, on time
            /\ ToSet(E.sense) \subseteq {d}  \* both ends turn the way asked for
            /\ \A s \in ToSet(E.revs) : \A j \in DOMAIN s : s[j] = j \div 2     \* turns completed, slot by slot
            /\ E.xerr <= TolFly              \* the reported x is the one of the reported velocities
CompleteList(m) == /\ ToSet(E.out) \subseteq {"ok"}
                   /\ ToSet(E.gap) \subseteq {0}     \* reported turns against the largest number possible
                   /\ ToSet(E.sizes) \subseteq {0}   \* every list has 2n+1 entries
                   /\ ToSet(E.sides) \subseteq {1}   \* of each pair one is on either side of the fastest arc
                   /\ ToSet(E.prefix) \subseteq {1}  \* agrees with what was listed when fewer or more turns were allowed
                   /\ \A s \in ToSet(E.revs) : s = Slots((Len(s) - 1) \div 2)
TSolve == /\ IsEvent("Solve")
          /\ Solve(E.m)
          /\ Focus = "sound" => Flies(dir)
          /\ Focus = "complete" => (CompleteList(E.m) /\ ToSet(E.revs) \subseteq {lists'[E.m]} /\ ToSet(E.nmax) \subseteq {Min(E.m, turns)})
TOther == /\ IsEvent("Other")
          /\ SolveOther(E.m)
          /\ Focus = "sound" => Flies(-dir)
          /\ Focus = "complete" => CompleteList(E.m)
TReverse == IsEvent("Reverse") /\ Reverse
TSpin == IsEvent("Spin") /\ Spin
TScale == IsEvent("Rescale") /\ Rescale
TraceNext == TStart \/ TSolve \/ TOther \/ TReverse \/ TSpin \/ TScale
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
