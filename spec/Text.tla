-------------------------------- MODULE Text --------------------------------
(* Text as sequences of code points, with the character classes and the     *)
(* string operations the header grammars are written with.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == ("\t" :> 9) @@ ("\n" :> 10) @@ [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c)]
\* The code points of a TLA+ string literal.
S(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
C(ch) == CodeOf[ch]
CharOf == [i \in 32..126 |-> SubSeq(Printable, i - 31, i - 31)]
\* Back to a TLA+ string (printable ASCII only).
Str(tx) == FoldLeft(LAMBDA acc, x : acc \o CharOf[x], "", tx)

TAB == 9  LF == 10  CR == 13  SP == 32  DQ == 34  BSLASH == 92
COMMA == 44  SEMI == 59  EQ == 61  COLON == 58  DOT == 46  MINUS == 45  SLASH == 47  STAR == 42

IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsDigit(c) == c >= 48 /\ c <= 57
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
IsHexDigit(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
IsAscii(c) == c < 128
\* RFC 7230 tchar
TChars == {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
IsTChar(c) == IsAlnum(c) \/ c \in TChars
LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
UpperC(c) == IF IsLower(c) THEN c - 32 ELSE c
Lower(tx) == [i \in 1..Len(tx) |-> LowerC(tx[i])]
Upper(tx) == [i \in 1..Len(tx) |-> UpperC(tx[i])]
EqNoCase(a, b) == Lower(a) = Lower(b)
All(tx, P(_)) == \A i \in 1..Len(tx) : P(tx[i])
AllAscii(tx) == All(tx, IsAscii)
Contains0(tx, c) == \E i \in 1..Len(tx) : tx[i] = c
StartsWith(tx, p) == Len(tx) >= Len(p) /\ SubSeq(tx, 1, Len(p)) = p
EndsWith(tx, p) == Len(tx) >= Len(p) /\ SubSeq(tx, Len(tx) - Len(p) + 1, Len(tx)) = p
Drop(tx, n) == SubSeq(tx, n + 1, Len(tx))
Take(tx, n) == SubSeq(tx, 1, IF n < Len(tx) THEN n ELSE Len(tx))

\* index of the first position >= from where P holds, Len(s)+1 if none
FindFrom(tx, from, P(_)) ==
  LET H == {i \in from..Len(tx) : P(tx[i])} IN
  IF H = {} THEN Len(tx) + 1 ELSE CHOOSE i \in H : \A j \in H : i <= j
\* s split at every occurrence of c (always at least one piece)
SplitOn(tx, c) ==
  FoldLeft(LAMBDA acc, x : IF x = c THEN Append(acc, <<>>)
                           ELSE [acc EXCEPT ![Len(acc)] = Append(@, x)], << <<>> >>, tx)
\* the pieces before and after the first c, or << s >> if there is none
SplitOnce(tx, c) ==
  LET i == FindFrom(tx, 1, LAMBDA x : x = c) IN
  IF i > Len(tx) THEN << tx >> ELSE << SubSeq(tx, 1, i - 1), SubSeq(tx, i + 1, Len(tx)) >>
TrimL(tx, P(_)) == Drop(tx, FindFrom(tx, 1, LAMBDA x : ~P(x)) - 1)
TrimR(tx, P(_)) == LET H == {i \in 1..Len(tx) : ~P(tx[i])} IN
                  IF H = {} THEN <<>> ELSE SubSeq(tx, 1, CHOOSE i \in H : \A j \in H : i >= j)
Trim(tx, P(_)) == TrimR(TrimL(tx, P), P)
IsOWS(c) == c \in {SP, TAB}
\* what Rust's str::trim removes, restricted to ASCII
IsSpace(c) == c \in {9, 10, 11, 12, 13, 32}
TrimWS(tx) == Trim(tx, IsSpace)
JoinWith(ss, sep) == FoldLeft(LAMBDA acc, i : IF i = 1 THEN ss[1] ELSE acc \o sep \o ss[i], <<>>, [i \in 1..Len(ss) |-> i])
Flatten(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
MapSeq(tx, F(_)) == [i \in 1..Len(tx) |-> F(tx[i])]

--------------------------------------------------------------------------------
(* Unsigned decimal numbers of any size, as canonical digit strings.         *)
IsDigits(tx) == Len(tx) > 0 /\ All(tx, IsDigit)
Canon(tx) == LET i == FindFrom(tx, 1, LAMBDA x : x # 48) IN IF i > Len(tx) THEN <<48>> ELSE Drop(tx, i - 1)
\* a < b, a <= b on canonical digit strings
RECURSIVE LexLT(_, _)
LexLT(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN Len(a) < Len(b)
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLT(Tail(a), Tail(b))
NumLT(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLT(a, b))
NumLE(a, b) == a = b \/ NumLT(a, b)
U64MAX == S("18446744073709551615")
\* A decimal 64-bit unsigned integer as Rust's u64::from_str reads it (one leading '+' tolerated).
StripPlus(tx) == IF Len(tx) > 1 /\ tx[1] = 43 THEN Tail(tx) ELSE tx
IsU64(tx) == IsDigits(StripPlus(tx)) /\ NumLE(Canon(StripPlus(tx)), U64MAX)
U64Of(tx) == Canon(StripPlus(tx))
\* small numbers
RECURSIVE NatOf(_)
NatOf(tx) == IF tx = <<>> THEN 0 ELSE 10 * NatOf(Front(tx)) + (Last(tx) - 48)
RECURSIVE DecOf(_)
DecOf(n) == IF n < 10 THEN <<48 + n>> ELSE DecOf(n \div 10) \o <<48 + (n % 10)>>
PadLeft(tx, n, c) == [i \in 1..(IF Len(tx) < n THEN n - Len(tx) ELSE 0) |-> c] \o tx

--------------------------------------------------------------------------------
(* UTF-8 as an automaton over bytes: need continuation bytes, the first of    *)
(* which must lie in lo..hi.                                                  *)
Utf8Step(st, b) ==
  IF st.bad THEN st
  ELSE IF st.need > 0
  THEN IF b >= st.lo /\ b <= st.hi THEN [bad |-> FALSE, need |-> st.need - 1, lo |-> 128, hi |-> 191]
       ELSE [st EXCEPT !.bad = TRUE]
  ELSE LET N(n, l, h) == [bad |-> FALSE, need |-> n, lo |-> l, hi |-> h] IN
       CASE b < 128 -> st
         [] b \in 194..223 -> N(1, 128, 191)
         [] b = 224 -> N(2, 160, 191)
         [] b = 237 -> N(2, 128, 159)
         [] b \in (225..236) \cup {238, 239} -> N(2, 128, 191)
         [] b = 240 -> N(3, 144, 191)
         [] b \in 241..243 -> N(3, 128, 191)
         [] b = 244 -> N(3, 128, 143)
         [] OTHER -> [st EXCEPT !.bad = TRUE]
Utf8Valid(bs) == LET z == FoldLeft(Utf8Step, [bad |-> FALSE, need |-> 0, lo |-> 128, hi |-> 191], bs)
                 IN ~z.bad /\ z.need = 0
\* UTF-8 encoding of a code point
Utf8Of(c) == CASE c < 128 -> << c >>
               [] c < 2048 -> << 192 + (c \div 64), 128 + (c % 64) >>
               [] c < 65536 -> << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
               [] OTHER -> << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
Utf8(tx) == Flatten(MapSeq(tx, Utf8Of))

(* application/x-www-form-urlencoded *)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsUpper(c) THEN c - 55 ELSE c - 87
RECURSIVE PctDecode(_)
PctDecode(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF b[1] = 43 THEN <<32>> \o PctDecode(Tail(b))
  ELSE IF b[1] = 37 /\ Len(b) >= 3 /\ IsHexDigit(b[2]) /\ IsHexDigit(b[3])
  THEN << 16 * HexVal(b[2]) + HexVal(b[3]) >> \o PctDecode(Drop(b, 3))
  ELSE << b[1] >> \o PctDecode(Tail(b))
\* the (name, value) pairs, as byte strings, of a form-encoded byte string
FormPairs(b) ==
  LET ps == SelectSeq(SplitOn(b, 38), LAMBDA x : x # <<>>) IN
  MapSeq(ps, LAMBDA x : LET kv == SplitOnce(x, EQ) IN
                        << PctDecode(kv[1]), IF Len(kv) = 2 THEN PctDecode(kv[2]) ELSE <<>> >>)
HexU(n) == IF n < 10 THEN 48 + n ELSE 55 + n
FormEncByte(b) == IF IsAlnum(b) \/ b \in {42, 45, 46, 95} THEN << b >>
                  ELSE IF b = 32 THEN << 43 >> ELSE << 37, HexU(b \div 16), HexU(b % 16) >>
FormEnc(bs) == Flatten(MapSeq(bs, FormEncByte))

--------------------------------------------------------------------------------
(* Outcomes. Every observable result is a record with a field k.             *)
Ok(v) == [k |-> "ok", v |-> v]
None == [k |-> "none"]
Err(st) == [k |-> "err", st |-> st]   \* st = 0: any status; st = 4: any 4xx
DontCare == [k |-> "any"]
Unit == [k |-> "unit"]
\* either a rejection or exactly this value
Maybe(v) == [k |-> "maybe", v |-> v]
\* absence, some value, or a client error
Sane == [k |-> "sane"]
\* ... or a value whose written form does not read back
Calm == [k |-> "calm"]
Some(v) == <<v>>
Match0(e, o) ==
  CASE e.k = "any" -> o.k # "panic"
    [] e.k = "err" -> o.k = "err"
    [] OTHER -> o.k = e.k /\ e = o
Match(e, o) ==
  CASE e.k = "any" -> o.k # "panic"
    [] e.k = "someok" -> o.k = "ok"
    [] e.k = "calm" -> o.k \in {"ok", "none", "unit", "unstable"} \/ (o.k = "err" /\ o.st \in 400..499)
    [] e.k = "sane" -> o.k \in {"ok", "none", "unit"} \/ (o.k = "err" /\ o.st \in 400..499)
    [] e.k = "maybe" -> o.k = "err" \/ (o.k = "ok" /\ o.v = e.v)
    [] e.k = "err" -> o.k = "err" /\ (e.st = 0 \/ (e.st = 4 /\ o.st \in 400..499) \/ e.st = o.st)
    [] e.k = "sh" -> o.k = "sh" /\ Match0(e.r, o.r) /\ Match0(e.any, o.any) /\ Match0(e.all, o.all)
    [] e.k = "ch" -> o.k = "ch" /\ Match0(e.r, o.r) /\ Match0(e.woken, o.woken)
    [] OTHER -> o.k = e.k /\ e = o
=============================================================================
