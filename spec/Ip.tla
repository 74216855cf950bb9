---------------------------------- MODULE Ip ----------------------------------
(* IPv6 addresses as text: reading any of their spellings (RFC 4291 2.2) and    *)
(* writing the canonical one (RFC 5952).  An address is a sequence of 8 groups. *)
EXTENDS Text
Group16(tx) == IF Len(tx) \in 1..4 /\ All(tx, IsHexDigit) THEN << FoldLeft(LAMBDA a, x : 16 * a + HexVal(x), 0, tx) >> ELSE <<>>
Octet(tx) == IF Len(tx) \in 1..3 /\ All(tx, IsDigit) /\ (Len(tx) = 1 \/ tx[1] # 48) /\ NatOf(tx) <= 255 THEN << NatOf(tx) >> ELSE <<>>
Quad(tx) == LET os == MapSeq(SplitOn(tx, DOT), Octet) IN IF Len(os) = 4 /\ \A i \in 1..4 : os[i] # <<>> THEN << Flatten(os) >> ELSE <<>>
\* groups separated by colons, the last perhaps a dotted quad; << groups >> or << >>
Groups(tx, quad) ==
  IF tx = <<>> THEN << <<>> >>
  ELSE LET ps == SplitOn(tx, COLON)
           g(i) == LET q == IF quad /\ i = Len(ps) THEN Quad(ps[i]) ELSE <<>> IN
                   IF q # <<>> THEN << << 256 * q[1][1] + q[1][2], 256 * q[1][3] + q[1][4] >> >>
                   ELSE LET h == Group16(ps[i]) IN IF h = <<>> THEN <<>> ELSE << h >>
           all == [i \in 1..Len(ps) |-> g(i)]
       IN IF \E i \in 1..Len(ps) : all[i] = <<>> THEN <<>> ELSE << Flatten(Flatten(all)) >>
Read6(tx) ==
  LET D == {i \in 1..(Len(tx) - 1) : tx[i] = COLON /\ tx[i + 1] = COLON} IN
  IF D = {} THEN LET g == Groups(tx, TRUE) IN IF g # <<>> /\ Len(g[1]) = 8 THEN g ELSE <<>>
  ELSE IF Cardinality(D) > 1 THEN <<>>
  ELSE LET i == CHOOSE x \in D : TRUE
           h == Groups(SubSeq(tx, 1, i - 1), FALSE)  t == Groups(Drop(tx, i + 1), TRUE)
       IN IF h = <<>> \/ t = <<>> THEN <<>>
          ELSE IF Len(h[1]) + Len(t[1]) > 7 THEN <<>>
          ELSE << h[1] \o [x \in 1..(8 - Len(h[1]) - Len(t[1])) |-> 0] \o t[1] >>
HexL(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN << HexL(n) >> ELSE Hex(n \div 16) \o << HexL(n % 16) >>
Colon(g) == JoinWith(MapSeq(g, Hex), << COLON >>)
Show6(g) ==
  IF (\A i \in 1..5 : g[i] = 0) /\ g[6] = 65535
  THEN S("::ffff:") \o JoinWith(<< DecOf(g[7] \div 256), DecOf(g[7] % 256), DecOf(g[8] \div 256), DecOf(g[8] % 256) >>, << DOT >>)
  ELSE LET Runs == {r \in (1..8) \X (1..8) : r[1] < r[2] /\ \A i \in r[1]..r[2] : g[i] = 0} IN
       IF Runs = {} THEN Colon(g)
       ELSE LET r == CHOOSE x \in Runs : \A y \in Runs : x[2] - x[1] > y[2] - y[1] \/ (x[2] - x[1] = y[2] - y[1] /\ x[1] <= y[1])
            IN Colon(SubSeq(g, 1, r[1] - 1)) \o << COLON, COLON >> \o Colon(SubSeq(g, r[2] + 1, 8))
=============================================================================
