----------------------------- MODULE PlotsTrace -----------------------------
EXTENDS Plots, Json, IOUtils
CONSTANT Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
T(x) == x = 1
\* what was recognised on the axes since the request; nothing was drawn elsewhere, arguments were left alone, keywords passed on
Shows(curves) == /\ E.out = "ok" /\ Same(E.curves, Drawn(curves)) /\ E.elsewhere = 0 /\ E.kept = 1 /\ E.bare = 0 /\ E.same = 1
                 /\ Draw(E.a, Drawn(curves))
ShowsOn(fresh, fig, curves) == /\ E.out = "ok" /\ Same(E.curves, Drawn(curves)) /\ E.elsewhere = 0 /\ E.kept = 1 /\ E.bare = 0 /\ E.same = 1
                               /\ IF fresh THEN E.fig = fig /\ Fresh(E.a, Drawn(curves)) ELSE Draw(E.a, Drawn(curves))
Refused(why) == E.out = why /\ E.curves = <<>> /\ E.elsewhere = 0 /\ E.kept = 1 /\ Look
TStart == IsEvent("Start") /\ axes' = [a \in Slots |-> <<>>]
TAxes == IsEvent("Axes") /\ E.out = "ok" /\ E.fig = E.w /\ E.three = 1 /\ Fresh(E.a, <<>>)
TSun == IsEvent("Sun") /\ Shows(Sun)
TPlace == IsEvent("Place") /\ Shows(Place(E.g))
\* a body without a period needs a range
TOrbit == IsEvent("Orbit") /\ IF E.range = "none" /\ E.period = 0 THEN Refused("NotImplementedError") ELSE Shows(Orbit(E.g, E.n))
TLambert == IsEvent("Lambert") /\ IF E.sol > 2 * E.nmax THEN Refused("ValueError") ELSE Shows(Lambert(E.sol, E.n))
TArc == IsEvent("Arc") /\ Shows(Arc(E.n))
TLeg == IsEvent("Leg") /\ Shows(Leg(E.nseg, Forward(E.nseg, E.cut8), E.n, T(E.grid), T(E.mid), T(E.push)))
THf == IsEvent("Hf") /\ Shows(HfLeg(E.nseg, Forward(E.nseg, E.cut8), E.n, T(E.grid), T(E.push)))
TMga == IsEvent("Mga") /\ ShowsOn(T(E.fresh), E.w, Mga(E.legs, E.ids, E.n))
TDirect == IsEvent("Direct") /\ ShowsOn(T(E.fresh), 7, Direct(T(E.planets), E.nseg, Forward(E.nseg, E.cut8), T(E.grid), T(E.mid), T(E.push)))
TSystem == IsEvent("System") /\ Shows(System({E.bodies[i] : i \in 1..Len(E.bodies)}))
TTheta == IsEvent("Theta") /\ Look /\ E.kept = 1 /\ IF T(E.stm) THEN E.out = "NotImplementedError" ELSE E.out = "ok" /\ E.err <= Tol
TLook == IsEvent("Look") /\ Look /\ E.calls = Len(axes[E.a]) /\ E.points = Points(axes[E.a])
TraceNext == TStart \/ TAxes \/ TSun \/ TPlace \/ TOrbit \/ TLambert \/ TArc \/ TLeg \/ THf \/ TMga \/ TDirect \/ TSystem \/ TTheta \/ TLook
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
