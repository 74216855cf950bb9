-------------------------------- MODULE Dates --------------------------------
(* The headers carrying a date, and texts close to dates.                      *)
EXTENDS DateText
Expected(rec) ==
  LET in == rec.in IN
  CASE rec.op = "dateread" -> IF in.vals = <<>> THEN None ELSE ReadDate(Last(in.vals))
    [] rec.op = "datewrite" -> Ok([t |-> Written("imf", in.d, in.s), back |-> << in.d, in.s >>])
    \* made from the clock: so long from now, and no other time
    [] rec.op = "fromnow" -> Ok([early |-> FALSE, late |-> FALSE, written |-> TRUE])
--------------------------------------------------------------------------------
CONSTANTS Years, FullYears, MutBase
VARIABLE cs
Start == [op |-> "none", in |-> [h |-> "date", vals |-> <<>>]]
Headers5 == {"date", "expires", "last-modified", "if-modified-since", "if-unmodified-since"}
Forms == {"imf", "rfc850", "asc"}
H(n) == << "date", "expires", "last-modified", "if-modified-since", "if-unmodified-since" >>[(n % 5) + 1]
Write(h, d, s, ns) == cs' = [op |-> "datewrite", in |-> [h |-> h, d |-> d, s |-> s, ns |-> ns]]
Read(h, vals) == cs' = [op |-> "dateread", in |-> [h |-> h, vals |-> vals]]
FormsFor(y) == IF y < 2070 THEN Forms ELSE Forms \ {"rfc850"}
Alters == {0, 9, 32, 43, 44, 45, 46, 48, 51, 54, 57, 58, 65, 71, 74, 97, 110, 127}
Bases == << S("Sun, 06 Nov 1994 08:49:37 GMT"), S("Sunday, 06-Nov-94 08:49:37 GMT"), S("Sun Nov  6 08:49:37 1994"),
            S("Wednesday, 29-Feb-12 23:59:59 GMT"), S("Tue Feb 29 00:00:00 2000"), S("Fri, 31 Dec 9999 23:59:59 GMT") >>
Wraps == {<< S("\""), S("\"") >>, << S("'"), S("'") >>, << S("<"), S(">") >>, << S("("), S(")") >>, << S("["), S("]") >>, << S("W/\""), S("\"") >>, << S("@"), <<>> >>, << S("="), <<>> >>,
  << <<>>, S(";") >>, << <<>>, S(";x=1") >>, << <<>>, S(",") >>, << S(","), <<>> >>, << <<>>, S(" (UTC)") >>, << <<>>, S("+0000") >>, << <<>>, S(" +0000") >>, << <<>>, S("\t") >>, << S("  "), S("  ") >>, << S("date="), <<>> >>, << <<>>, S(".000") >>, << <<>>, S("+1") >>, << S("\""), <<>> >>, << <<>>, S("\"") >> }
Init == cs = Start
Next ==
  /\ cs = Start
  /\ \/ \* every year: its edges
        \E y \in Years, md \in {<<1, 1>>, <<2, 28>>, <<3, 1>>, <<12, 31>>} : LET n == DayNo(y, md[1], md[2]) IN
          \/ Write(H(y), n, (y * 7919) % 86400, (y % 2) * 999999999)
          \/ \E f \in FormsFor(y) : Read(H(y), << Written(f, n, (y * 7919) % 86400) >>)
     \/ \* whole years, day by day
        \E y \in FullYears : \E n \in Jan1(y)..(Jan1(y + 1) - 1) :
          \/ Write(H(n), n, 86399, 0)
          \/ \E f \in FormsFor(y) : Read(H(n), << Written(f, n, 86399 - (n % 2)) >>)
     \/ \* every day and month number, also those no calendar has
        \E y \in {1970, 1999, 2000, 2023, 2024}, m \in 1..12, d \in (0..1) \cup (27..33) \cup {99}, f \in Forms :
          LET w == IF d \in 1..MonthLen(y, m) THEN WeekDay(DayNo(y, m, d)) ELSE (d % 7) + 1 IN Read(H(d), << Form(f, w, d, m, y, Clock(43200)) >>)
     \/ \* centuries
        \E y \in {0, 999, 1600, 1900, 1968, 1969, 2100, 2200, 2300, 2400, 9600, 9999}, d \in {28, 29, 30}, f \in {"imf", "asc"}, w \in 1..7 : Read(H(w), << Form(f, w, d, 2, y, Clock(1)) >>)
     \/ \* the extra day of every leap year kept, written and read; the days around it in every century
        \E y \in Years, md \in {<<2, 29>>, <<2, 28>>, <<3, 1>>, <<2, 30>>} : (Leap(y) \/ y % 100 = 0) /\ LET w == WeekDay(DayNo(y, md[1], md[2])) IN
          \/ md[2] <= MonthLen(y, md[1]) /\ \E s \in {0, 43200, 86399} : Write(H(y + s), DayNo(y, md[1], md[2]), s, 0)
          \/ \E f \in FormsFor(y) : Read(H(y \div 4), << Form(f, w, md[2], md[1], y, Clock(43200)) >>)
     \/ \* years before the first, and four digits that abbreviate
        \E y \in (0..99) \cup {z \in 100..1969 : z % 50 \in {0, 49} \/ z > 1955}, f \in {"imf", "asc"}, u \in {0, 1900, 2000} : Read(H(y), << Form(f, WeekDay(DayNo(IF u = 0 THEN 2000 ELSE IF u + y < 1970 THEN 1970 ELSE u + y, 3, 1)), 1, 3, y, Clock(0)) >>)
     \/ \* two characters of a field altered together
        \E b \in MutBase, x, y \in {0, 9, 32, 43, 45, 48, 49, 54, 58, 97} : LET t == Bases[b] IN \E i \in 1..(Len(t) - 1) : IsDigit(t[i]) /\ IsDigit(t[i + 1]) /\ Read(H(i), << [t EXCEPT ![i] = x, ![i + 1] = y] >>)
     \/ \E b \in MutBase : LET t == Bases[b] IN \E i \in 1..(Len(t) - 1) : Read(H(i), << [t EXCEPT ![i] = t[i + 1], ![i + 1] = t[i]] >>)
     \/ \* a day of one digit where it leans the other way
        \E d \in 0..9, m \in {1, 11}, f \in Forms, w \in 1..7, x \in {<<48>>, <<SP>>, <<>>}, side \in {0, 1} : LET t == Form(f, w, 77, m, 1994, Clock(31777))  i == CHOOSE j \in 1..Len(t) : t[j] = 55 /\ t[j + 1] = 55 IN
           Read(H(w), << Take(t, i - 1) \o (IF side = 0 THEN x \o << 48 + d >> ELSE << 48 + d >> \o x) \o Drop(t, i + 1) >>)
     \/ \E y \in 0..99, h \in {"date", "expires"} : \E w \in 1..7 : Read(h, << Form("rfc850", w, 1, 3, y, Clock(0)) >>)
     \/ \* the clock
        \E h \in 0..25, mi \in {0, 59, 60, 99}, s \in {0, 59, 60, 61, 99}, f \in Forms : Read(H(h), << Form(f, 7, 6, 11, 1994, TwoD(h) \o << COLON >> \o TwoD(mi) \o << COLON >> \o TwoD(s)) >>)
     \/ \E k \in 0..86399 : k % 61 = 0 /\ Write("date", 9075, k, 500000000)
     \/ \* one position altered, removed, doubled
        \E b \in MutBase : LET t == Bases[b] IN \E i \in 1..Len(t) :
          \/ \E x \in Alters : \/ Read(H(i), << SubSeq(t, 1, i - 1) \o << x >> \o Drop(t, i) >>) \/ Read(H(i), << Take(t, i) \o << x >> \o Drop(t, i) >>)
          \/ Read(H(i), << SubSeq(t, 1, i - 1) \o Drop(t, i) >>)
          \/ Read(H(i), << Take(t, i) >>) \/ Read(H(i), << Drop(t, i) >>)
          \/ Read(H(i), << [t EXCEPT ![i] = IF IsLower(@) THEN UpperC(@) ELSE LowerC(@)] >>)
     \/ \* the whole wrapped, doubled, followed by more
        \E b \in MutBase, w \in Wraps : Read(H(b), << w[1] \o Bases[b] \o w[2] >>)
     \/ \E b, b2 \in MutBase, x \in {<<>>, S(","), S(", "), S(";"), S(" ")} : Read(H(b), << Bases[b] \o x \o Bases[b2] >>)
     \/ \E b \in MutBase : Read(H(b), << [i \in 1..Len(Bases[b]) |-> UpperC(Bases[b][i])] >>) \/ Read(H(b), << [i \in 1..Len(Bases[b]) |-> LowerC(Bases[b][i])] >>)
     \/ \E d \in {0, 1, 59, 60, 3600, 86400, 31536000, 2147483647}, h \in {"date", "expires"} : (h = "date" => d = 0) /\ cs' = [op |-> "fromnow", in |-> [h |-> h, d |-> d]]
     \/ \* the last value counts
        \E h \in Headers5 : \/ Read(h, <<>>) \/ \E p \in 0..2, q \in {<<>>, S(" "), S("x"), Bases[1], Bases[2], Bases[3], Bases[6], <<SP>> \o Bases[1] \o <<TAB>>} : Read(h, [i \in 1..p |-> Bases[i + 3]] \o << q >>)
Emit == PrintT(ToJson([op |-> cs'.op, in |-> cs'.in, exp |-> Expected(cs')]))
\* every text the specification writes denotes the instant it was written from
RoundTrip == cs.op = "datewrite" => \A f \in {"imf", "asc"} : ReadDate(Written(f, cs.in.d, cs.in.s)) = Ok(<< cs.in.d, cs.in.s >>)
Years1 == 1970..9999
Years0 == {y \in 1970..9999 : y < 2110 \/ y % 25 = 0 \/ y % 25 = 24 \/ y > 9990}
Full0 == {1970, 1972, 2000, 2023, 2069, 2100, 9999}
Full1 == (1970..2101) \cup {2399, 2400, 9996, 9999}
=============================================================================
