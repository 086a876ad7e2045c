------------------------------- MODULE JplLpMC ------------------------------
EXTENDS JplLp
MCNext == \/ \E s \in Slots, p \in Planets : Make(s, p)
          \/ \E s, t \in Slots : Assign(s, t)
MCSpec == Init /\ [][MCNext]_vars
TypeOK == pl \in [Slots -> Planets]
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Well(x) == x[2] \in -99999999..99999999 /\ (x[1] > 0 => x[2] >= 0) /\ (x[1] < 0 => x[2] <= 0)
\* sanity of the table: the planets come in order, the outer ones slower, and every number is well formed
Table == \A p \in Planets :
   /\ \A j \in 1..6 : Well(El[p][j]) /\ Well(Dot[p][j])
   /\ \A j \in 1..3 : Well(Phys[p][j])
   /\ El[p][2][1] = 0 /\ El[p][2][2] > 0
   /\ p < 8 => Less(El[p][1], El[p + 1][1]) /\ Less(Dot[p + 1][4], Dot[p][4])
\* Kepler's third law holds between two independent columns: a^3 n^2 is the same for all, to a percent
\* (a in thousandths of au, n in degrees or tenths per century, scaled to stay within TLC's integers)
Milli(p) == El[p][1][1] * 1000 + El[p][1][2] \div 100000
Rate(p) == Dot[p][4][1]
Tenths(p) == Rate(p) * 10 + Dot[p][4][2] \div 10000000
Cube(p, x, y) == (((Milli(p) * Milli(p)) \div x) * Milli(p)) \div y
K(p) == CASE p = 1 -> Cube(p, 1, 1000) * (((Rate(p) \div 10) * (Rate(p) \div 10)) \div 10000)
          [] p = 2 -> Cube(p, 1, 1000) * (((Rate(p) \div 10) * (Rate(p) \div 10)) \div 10000)
          [] p \in {3, 4} -> Cube(p, 10, 100) * ((Rate(p) * Rate(p)) \div 1000000)
          [] p = 5 -> Cube(p, 100, 1000) * ((Tenths(p) * Tenths(p)) \div 1000000)
          [] p = 6 -> Cube(p, 1000, 1000) * ((Tenths(p) * Tenths(p)) \div 100000)
          [] p = 7 -> Cube(p, 10000, 1000) * ((Tenths(p) * Tenths(p)) \div 10000)
          [] OTHER -> Cube(p, 100000, 1000) * ((Tenths(p) * Tenths(p)) \div 1000)
Third == \A p \in Planets : K(p) \in 1280000000..1310000000
\* the table is never extrapolated
Bounded == \A d \in {-100000, Lo - 1, Lo, 0, Hi - 1, Hi, Hi + 1, 50000}, j \in {0, 1, 127} :
   /\ "ok" \in Eph(d, j) => (d >= Lo /\ d < Hi /\ (d > Lo \/ j > 0))
   /\ Eph(d, j) # {}
   /\ (d \in Lo..(Hi - 1) /\ j > 0) => Eph(d, j) = {"ok"}
=============================================================================
