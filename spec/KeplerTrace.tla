----------------------------- MODULE KeplerTrace ----------------------------
(* Is the recorded execution of the real propagators a behaviour of Kepler? *)
EXTENDS Kepler, Json, IOUtils
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
tvars == <<orb, k, noise, tang, l>>
TraceInit == Init /\ l = 1
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
ToSet(s) == {s[j] : j \in DOMAIN s}

TStart == IsEvent("Start") /\ Start(E.cls, E.ori, E.unit, E.off, E.tick, E.k)

\* ph: all phases observed over the sampled concrete orbits (those whose condition number lets the phase
\* be resolved); em, eo: worst phase and orbit error over the history, loc: worst error of this step
\* alone, each in units of 10^-15 times its condition number
TProp == /\ IsEvent("Prop")
         /\ Prop(E.m, E.dk)
         /\ ToSet(E.out) \subseteq {"ok"}
         /\ ToSet(E.ph) \subseteq {Phase(k')}
         /\ E.em \div noise' <= GlobalTol /\ E.eo \div noise' <= GlobalTol
         /\ E.loc <= LocalTol(E.m)

TVec == /\ IsEvent("Vec")
        /\ "vec" \in Methods
        /\ ToSet(E.out) \subseteq {"ok"}
        /\ ToSet(E.ph) \subseteq {Grid(E.ds)}
        /\ E.loc <= LocalTol("lag")
        /\ ToSet(E.hasstm) \subseteq {E.stm}     \* a matrix exactly when asked for
        /\ E.same = 1                            \* bit-identical to separate calls
        /\ UNCHANGED vars

\* C: the observed tangent map of this arc, ca: of the whole history, both rounded to integers
TStm == /\ IsEvent("Stm")
        /\ Stm(E.a, E.dk)
        /\ ToSet(E.out) \subseteq {"ok"}
        /\ ToSet(E.ph) \subseteq {Phase(k')}
        /\ ToSet(E.c) \subseteq {Shear(E.dk)}
        /\ ToSet(E.ca) \subseteq {tang'}
        /\ E.loc <= LocalTol("lag")
        /\ E.sloc <= StmTol(E.a)
        /\ E.same = 1                            \* same state with and without the matrix

TraceNext == TStart \/ TProp \/ TVec \/ TStm
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
