---------------------------- MODULE ElementsTrace ---------------------------
(* Is the recorded chain of real conversions a behaviour of Elements? *)
EXTENDS Elements, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<orb, rep, val, noise, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
ToSet(s) == {s[j] : j \in DOMAIN s}

TStart == /\ IsEvent("Start")
          /\ Start([cls |-> E.cls, unit |-> E.unit, i |-> E.i, W |-> E.W, w |-> E.w, f |-> E.f, off |-> E.off], E.rep)
\* vals: what the abstraction reads in the results (all sampled concrete orbits); raw: node, pericentre and (from
\* Cartesian) anomaly exactly as returned, in whole degrees; err: worst deviation; shape: worst error of a and e
TConvert ==
    /\ IsEvent("Convert")
    /\ Convert(E.to)
    /\ ToSet(E.out) \subseteq {"ok"}
    /\ ToSet(E.vals) \subseteq {val'}
    /\ E.err \div noise' <= Tol
    /\ E.shape \div noise' <= Tol
    /\ E.to = "par" =>
         \A v \in ToSet(E.raw) : /\ v[1] = val'[1]
                                 /\ v[2] \in Shown(val'[2]) /\ v[3] \in Shown(val'[3])
                                 /\ rep = "ic" => v[4] \in Shown(val'[4])
    /\ E.inrange = 1
TMake == /\ IsEvent("Make")
         /\ ToSet(E.out) \subseteq {IF Refused(E.sgn, E.cls, E.f) THEN "domain_error" ELSE "ok"}
         /\ ~Refused(E.sgn, E.cls, E.f) => E.err <= Tol
         /\ UNCHANGED vars
TraceNext == TStart \/ TConvert \/ TMake
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
