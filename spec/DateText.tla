------------------------------ MODULE DateText ------------------------------
(* HTTP dates: the proleptic Gregorian calendar and the three textual forms.   *)
(* An instant is << day since 1970, second >>.                                 *)
EXTENDS Text
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
\* leap years in 1..y
Leaps(y) == (y \div 4) - (y \div 100) + (y \div 400)
Jan1(y) == 365 * (y - 1970) + Leaps(y - 1) - Leaps(1969)
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE Before(y, m - 1) + MonthLen(y, m - 1)
DayNo(y, m, d) == Jan1(y) + Before(y, m) + d - 1
YearOf(n) == LET z == 1970 + n \div 366 IN CHOOSE y \in z..(z + 24) : Jan1(y) <= n /\ n < Jan1(y + 1)
Civil(n) == LET y == YearOf(n)  r == n - Jan1(y)
                m == CHOOSE m \in 1..12 : Before(y, m) <= r /\ r < Before(y, m) + MonthLen(y, m)
            IN [y |-> y, m |-> m, d |-> r - Before(y, m) + 1]
WeekDay(n) == ((n + 3) % 7) + 1     \* 1 = Monday
MaxDay == 2932896
ShortDay == << S("Mon"), S("Tue"), S("Wed"), S("Thu"), S("Fri"), S("Sat"), S("Sun") >>
LongDay == << S("Monday"), S("Tuesday"), S("Wednesday"), S("Thursday"), S("Friday"), S("Saturday"), S("Sunday") >>
MonthName == << S("Jan"), S("Feb"), S("Mar"), S("Apr"), S("May"), S("Jun"), S("Jul"), S("Aug"), S("Sep"), S("Oct"), S("Nov"), S("Dec") >>
TwoD(n) == << 48 + n \div 10, 48 + (n % 10) >>
FourD(n) == TwoD(n \div 100) \o TwoD(n % 100)
Clock(s) == TwoD(s \div 3600) \o << COLON >> \o TwoD((s % 3600) \div 60) \o << COLON >> \o TwoD(s % 60)
Gmt == S(" GMT")
\* the three forms, from the fields as written
ImfText(w, d, m, y, ck) == ShortDay[w] \o S(", ") \o TwoD(d) \o << SP >> \o MonthName[m] \o << SP >> \o FourD(y) \o << SP >> \o ck \o Gmt
Rfc850Text(w, d, m, y, ck) == LongDay[w] \o S(", ") \o TwoD(d) \o << MINUS >> \o MonthName[m] \o << MINUS >> \o TwoD(y % 100) \o << SP >> \o ck \o Gmt
AscText(w, d, m, y, ck) == ShortDay[w] \o << SP >> \o MonthName[m] \o << SP >> \o (IF d < 10 THEN << SP, 48 + d >> ELSE TwoD(d)) \o << SP >> \o ck \o << SP >> \o FourD(y)
Form(f, w, d, m, y, ck) == CASE f = "imf" -> ImfText(w, d, m, y, ck) [] f = "rfc850" -> Rfc850Text(w, d, m, y, ck) [] f = "asc" -> AscText(w, d, m, y, ck)
Written(f, n, s) == LET c0 == Civil(n) IN Form(f, WeekDay(n), c0.d, c0.m, c0.y, Clock(s))
--------------------------------------------------------------------------------
IndexIn(names, x) == IF \E i \in 1..Len(names) : names[i] = x THEN CHOOSE i \in 1..Len(names) : names[i] = x ELSE 0
\* a tuple of fields, or <<>> : << weekday, day, month, year, hour, minute, second >> as texts
Split3(tx) ==
  LET Sub(a, b) == SubSeq(tx, a, b)
      At(i, x) == tx[i] = x
      Clk(i) == At(i + 2, COLON) /\ At(i + 5, COLON)
      R(w, names, d, m, y, i) == IF IndexIn(names, w) = 0 \/ IndexIn(MonthName, m) = 0 THEN <<>>
         ELSE << IndexIn(names, w), d, IndexIn(MonthName, m), y, Sub(i, i + 1), Sub(i + 3, i + 4), Sub(i + 6, i + 7) >>
  IN CASE Len(tx) = 29 /\ Sub(4, 5) = S(", ") -> 
            IF At(8, SP) /\ At(12, SP) /\ At(17, SP) /\ Clk(18) /\ Sub(26, 29) = Gmt
            THEN R(Sub(1, 3), ShortDay, Sub(6, 7), Sub(9, 11), Sub(13, 16), 18) ELSE <<>>
       [] Len(tx) \in 30..33 /\ ~ (Sub(4, 5) = S(", ")) -> 
            LET k == Len(tx) - 24 IN  \* length of the weekday name
            IF Sub(k + 1, k + 2) = S(", ") /\ At(k + 5, MINUS) /\ At(k + 9, MINUS) /\ At(k + 12, SP) /\ Clk(k + 13) /\ Sub(k + 21, k + 24) = Gmt
            THEN R(Sub(1, k), LongDay, Sub(k + 3, k + 4), Sub(k + 6, k + 8), Sub(k + 10, k + 11), k + 13) ELSE <<>>
       [] Len(tx) = 24 ->
            IF At(4, SP) /\ At(8, SP) /\ At(11, SP) /\ Clk(12) /\ At(20, SP)
            THEN R(Sub(1, 3), ShortDay, IF At(9, SP) THEN << 48, tx[10] >> ELSE Sub(9, 10), Sub(5, 7), Sub(21, 24), 12) ELSE <<>>
       [] OTHER -> <<>>
\* the instant a text denotes: Ok, an error, or (weekday at odds with the date) either of the two
ReadDate(text0) ==
  LET tx == TrimWS(text0)  f == Split3(tx) IN
  IF ~AllAscii(text0) \/ f = <<>> \/ \E i \in {2, 4, 5, 6, 7} : ~IsDigits(f[i]) THEN Err(400)
  ELSE LET y0 == NatOf(f[4])
           y == IF Len(f[4]) = 4 THEN y0 ELSE IF y0 < 70 THEN 2000 + y0 ELSE 1900 + y0
           d == NatOf(f[2])  h == NatOf(f[5])  mi == NatOf(f[6])  se == NatOf(f[7])
       IN IF y < 1970 \/ d < 1 \/ d > MonthLen(y, f[3]) \/ h > 23 \/ mi > 59 \/ se > 59 THEN Err(400)
          ELSE LET n == DayNo(y, f[3], d)  v == << n, 3600 * h + 60 * mi + se >>
               IN IF WeekDay(n) = f[1] THEN Ok(v) ELSE Maybe(v)
=============================================================================
