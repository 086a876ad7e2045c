------------------------------ MODULE AnomalyMC -----------------------------
EXTENDS Anomaly
VARIABLE p0
MCInit == \E c \in Shapes : \E kd \in Kinds(c), p \in -2*N..2*N : cls = c /\ kind = kd /\ pos = p /\ p0 = p
MCNext == \E to \in EllK \cup HypK : Convert(to) /\ UNCHANGED p0
MCSpec == MCInit /\ [][MCNext]_<<vars, p0>>
SamePoint == Point(cls, pos) = Point(cls, p0) /\ Half(cls, pos) = Half(cls, p0)
=============================================================================
