----------------------------- MODULE AnomalyTrace ---------------------------
(* Is the recorded chain of real anomaly conversions a behaviour of Anomaly? *)
EXTENDS Anomaly, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cls, kind, pos, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
ToSet(s) == {s[j] : j \in DOMAIN s}
TStart == IsEvent("Start") /\ Start(E.cls, E.kind, E.pos)
\* points: where the results lie on the orbit (all sampled eccentricities); half: sign of the sine of the result;
\* in: 1 if every result is within [-pi, pi]
TConvert == /\ IsEvent("Convert")
            /\ Convert(E.to)
            /\ ToSet(E.out) \subseteq {"ok"}
            /\ ToSet(E.points) \subseteq {Point(cls, pos')}
            /\ ToSet(E.half) \subseteq {Half(cls, pos')}
            /\ <<kind, E.to>> \in Bounded => E.within = 1
            /\ E.err <= Tol
TDomain == /\ IsEvent("Domain")
           /\ ToSet(E.out) \subseteq {IF Defined(<<E.from, E.to>>, E.cls) THEN "number"
                                      ELSE "nan"}
           /\ UNCHANGED vars
TRun == /\ IsEvent("Run")
        /\ Defined(<<E.from, E.to>>, E.cls)
        /\ E.monotone = 1
        /\ UNCHANGED vars
TraceNext == TStart \/ TConvert \/ TDomain \/ TRun
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
