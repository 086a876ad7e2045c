-------------------------------- MODULE JplLp -------------------------------
(***************************************************************************)
(* The low-precision solar system: eight planets on slowly changing Kepler *)
(* orbits, valid strictly between 1800 and 2050 (JPL, Keplerian elements   *)
(* for approximate positions, table 1). The table is part of this          *)
(* specification; it reaches the replay harness only through the generated *)
(* behaviours. A number x is held as <<n, m>>, x = n + m/10^8.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlots
VARIABLES pl
vars == <<pl>>
Slots == 1..NSlots
Planets == 1..8
Names == <<"mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune">>
BadNames == <<"pluto", "moon", "sun", "eart", "earthh", "earth_", "mer", "marsmars", "planet", "neptun", "uranos", "-">>
\* a [au], e, i, mean longitude, longitude of the pericentre, node [degrees] at J2000; their change per Julian century
El == <<
 << <<0,38709927>>, <<0,20563593>>, <<7,497902>>, <<252,25032350>>, <<77,45779628>>, <<48,33076593>> >>,
 << <<0,72333566>>, <<0,677672>>, <<3,39467605>>, <<181,97909950>>, <<131,60246718>>, <<76,67984255>> >>,
 << <<1,261>>, <<0,1671123>>, <<0,-1531>>, <<100,46457166>>, <<102,93768193>>, <<0,0>> >>,
 << <<1,52371034>>, <<0,9339410>>, <<1,84969142>>, <<-4,-55343205>>, <<-23,-94362959>>, <<49,55953891>> >>,
 << <<5,20288700>>, <<0,4838624>>, <<1,30439695>>, <<34,39644051>>, <<14,72847983>>, <<100,47390909>> >>,
 << <<9,53667594>>, <<0,5386179>>, <<2,48599187>>, <<49,95424423>>, <<92,59887831>>, <<113,66242448>> >>,
 << <<19,18916464>>, <<0,4725744>>, <<0,77263783>>, <<313,23810451>>, <<170,95427630>>, <<74,1692503>> >>,
 << <<30,6992276>>, <<0,859048>>, <<1,77004347>>, <<-55,-12002969>>, <<44,96476227>>, <<131,78422574>> >> >>
Dot == <<
 << <<0,37>>, <<0,1906>>, <<0,-594749>>, <<149472,67411175>>, <<0,16047689>>, <<0,-12534081>> >>,
 << <<0,390>>, <<0,-4107>>, <<0,-78890>>, <<58517,81538729>>, <<0,268329>>, <<0,-27769418>> >>,
 << <<0,562>>, <<0,-4392>>, <<0,-1294668>>, <<35999,37244981>>, <<0,32327364>>, <<0,0>> >>,
 << <<0,1847>>, <<0,7882>>, <<0,-813131>>, <<19140,30268499>>, <<0,44441088>>, <<0,-29257343>> >>,
 << <<0,-11607>>, <<0,-13253>>, <<0,-183714>>, <<3034,74612775>>, <<0,21252668>>, <<0,20469106>> >>,
 << <<0,-125060>>, <<0,-50991>>, <<0,193609>>, <<1222,49362201>>, <<0,-41897216>>, <<0,-28867794>> >>,
 << <<0,-196176>>, <<0,-4397>>, <<0,-242939>>, <<428,48202785>>, <<0,40805281>>, <<0,4240589>> >>,
 << <<0,26291>>, <<0,5105>>, <<0,35372>>, <<218,45945325>>, <<0,-32241464>>, <<0,-508664>> >> >>
\* own gravitational parameter [km^3/s^2], radius [km], tenths of a radius within which nothing should fly
Phys == << << <<22032,0>>, <<2440,0>>, <<11,0>> >>, << <<324859,0>>, <<6052,0>>, <<11,0>> >>, << <<398600,44180000>>, <<6378,0>>, <<11,0>> >>,
           << <<42828,0>>, <<3397,0>>, <<11,0>> >>, << <<126686534,0>>, <<71492,0>>, <<90,0>> >>, << <<37931187,0>>, <<60330,0>>, <<11,0>> >>,
           << <<5793939,0>>, <<25362,0>>, <<11,0>> >>, << <<6836529,0>>, <<24622,0>>, <<11,0>> >> >>
Sun == << <<132712440,4127942>>, <<149597870,70000000>> >>   \* gravity [1000 km^3/s^2], astronomical unit [km]
\* --------------------------------------------------------------- when it answers
\* times are days and 128ths of a day since 2000-01-01; at midnight of the two limits either answer will do
Lo == -73048
Hi == 18263
When(d, j) == IF d < Lo \/ d >= Hi \/ (d = Lo /\ j = 0) THEN "out" ELSE "in"
Eph(d, j) == IF When(d, j) = "in" THEN {"ok"} ELSE {"domain_error"}
Answer(d, j, el) == IF el = "POSVEL" THEN (IF When(d, j) = "in" THEN {"logic_error"} ELSE {"logic_error", "domain_error"}) ELSE Eph(d, j)
ElTypes == {"POSVEL", "KEP_F", "KEP_M", "MEQ", "MEQ_R"}
\* the Earth's orbit is the reference plane: its retrograde elements are not defined
Asked(p, el) == ~(el = "MEQ_R" /\ p = 3)
----------------------------------------------------------------------------
Make(s, p) == pl' = [pl EXCEPT ![s] = p]
Assign(s, t) == pl' = [pl EXCEPT ![t] = pl[s]]
Ask == UNCHANGED vars
Init == pl = [s \in Slots |-> 3]
=============================================================================
