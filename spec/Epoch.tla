-------------------------------- MODULE Epoch -------------------------------
(***************************************************************************)
(* Epochs: instants of an exact proleptic Gregorian calendar, counted as   *)
(* <<days since 2000-01-01, seconds of the day, microseconds>>, what can   *)
(* be done with them and how they are written.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSlots, NFiles
Slots == 1..NSlots
Files == 1..NFiles
VARIABLES ep, files
vars == <<ep, files>>
\* ---- the calendar
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
DayNumber(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        doy == ((153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5) + d - 1
        doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
    IN era * 146097 + doe - 719468 - 10957
Civil(n) ==
    LET z == n + 10957 + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
        doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
        mp == (5 * doy + 2) \div 153
        d == doy - ((153 * mp + 2) \div 5) + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN <<y, m, d>>
\* ---- instants and durations
Norm(d, s, u) == LET s1 == s + (u \div 1000000) IN <<d + (s1 \div 86400), s1 % 86400, u % 1000000>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
Minus(a, b) == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
Zero == <<0, 0, 0>>
Less(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Order(a, b) == <<IF Less(b, a) THEN 1 ELSE 0, IF Less(a, b) THEN 1 ELSE 0, IF Less(a, b) THEN 0 ELSE 1, IF Less(b, a) THEN 0 ELSE 1,
                 IF a = b THEN 1 ELSE 0, IF a = b THEN 0 ELSE 1>>
\* f = <<year, month, day, hour, minute, second, millisecond, microsecond>>; everything after the day carries over freely
DateOk(f) == f[1] \in -32767..32767 /\ f[2] \in 1..12 /\ f[3] \in 1..31
Instant(f) ==
    LET a == Norm(DayNumber(f[1], f[2], f[3]), 0, 0)
        b == Norm(f[4] \div 24, (f[4] % 24) * 3600, 0)
        c == Norm(f[5] \div 1440, (f[5] % 1440) * 60, 0)
        d == Norm(0, f[6] + (f[7] \div 1000), (f[7] % 1000) * 1000)
    IN Plus(Plus(a, b), Plus(c, Plus(d, Norm(0, 0, f[8]))))
\* Julian counts: <<day, half-days>> offset of each count's zero
Offset(type) == CASE type = "MJD2000" -> <<0, 0, 0>> [] type = "MJD" -> <<51544, 0, 0>> [] type = "JD" -> <<2451544, 43200, 0>>
\* ---- writing
RECURSIVE Zeros(_)
Zeros(k) == IF k <= 0 THEN "" ELSE "0" \o Zeros(k - 1)
Digits(n) == CASE n < 10 -> 1 [] n < 100 -> 2 [] n < 1000 -> 3 [] n < 10000 -> 4 [] n < 100000 -> 5 [] OTHER -> 6
Pad(n, k) == Zeros(k - Digits(n)) \o ToString(n)
Written(e) == LET c == Civil(e[1]) IN
    Pad(c[1], 4) \o "-" \o Pad(c[2], 2) \o "-" \o Pad(c[3], 2) \o "T" \o Pad(e[2] \div 3600, 2) \o ":" \o Pad((e[2] \div 60) % 60, 2) \o ":" \o Pad(e[2] % 60, 2)
    \o "." \o Pad(e[3], 6)
Writable(e) == Civil(e[1])[1] \in 0..9999
\* ---- reading: k pieces (2: month .. 6: seconds), then nd decimals, with month and day possibly out of range
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000 [] k = 5 -> 100000
Text(f, k, nd) == Pad(f[1], 4) \o "-" \o Pad(f[2], 2) \o (IF k > 2 THEN "-" \o Pad(f[3], 2) ELSE "") \o (IF k > 3 THEN "T" \o Pad(f[4], 2) ELSE "")
                  \o (IF k > 4 THEN ":" \o Pad(f[5], 2) ELSE "") \o (IF k > 5 THEN ":" \o Pad(f[6], 2) ELSE "") \o (IF nd > 0 THEN "." \o Pad(f[8], nd) ELSE "")
Meant(f, k, nd) == <<f[1], f[2], IF k > 2 THEN f[3] ELSE 1, IF k > 3 THEN f[4] ELSE 0, IF k > 4 THEN f[5] ELSE 0, IF k > 5 THEN f[6] ELSE 0, 0,
                     IF nd > 0 THEN f[8] * Pow10(6 - nd) ELSE 0>>
----------------------------------------------------------------------------
Cal(s, f) == ep' = (IF DateOk(f) THEN [ep EXCEPT ![s] = Instant(f)] ELSE ep) /\ UNCHANGED files
Count(s, type, d, k) == ep' = [ep EXCEPT ![s] = Minus(Norm(d, 675 * k, 0), Offset(type))] /\ UNCHANGED files
Since(s, x) == ep' = [ep EXCEPT ![s] = Norm(x[1], x[2], x[3])] /\ UNCHANGED files
Shift(s, x, sign) == ep' = [ep EXCEPT ![s] = IF sign = 1 THEN Plus(ep[s], x) ELSE Minus(ep[s], x)] /\ UNCHANGED files
ShiftTo(s, t, x, sign) == ep' = [ep EXCEPT ![t] = IF sign = 1 THEN Plus(ep[s], x) ELSE Minus(ep[s], x)] /\ UNCHANGED files
Parse(s, f, k, nd, hurt) == ep' = (IF hurt = 0 /\ DateOk(Meant(f, k, nd)) THEN [ep EXCEPT ![s] = Instant(Meant(f, k, nd))] ELSE ep) /\ UNCHANGED files
Reparse(s, t) == Writable(ep[s]) /\ ep' = [ep EXCEPT ![t] = ep[s]] /\ UNCHANGED files
Copy(s, t) == ep' = [ep EXCEPT ![t] = ep[s]] /\ UNCHANGED files
Save(s, f) == files' = [files EXCEPT ![f] = ep[s]] /\ UNCHANGED ep
Load(f, t) == ep' = [ep EXCEPT ![t] = files[f]] /\ UNCHANGED files
Query(s, t) == UNCHANGED vars
Init == ep = [s \in Slots |-> Zero] /\ files = [f \in Files |-> Zero]
=============================================================================
