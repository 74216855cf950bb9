-------------------------------- MODULE ListText --------------------------------
(* Comma separated lists whose elements may contain quoted strings.               *)
EXTENDS Text
\* elements are separated by commas outside quoted strings
Elements(t) ==
  LET z == FoldLeft(LAMBDA acc, x : LET q == IF x = DQ THEN ~acc.q ELSE acc.q IN
                      IF x = COMMA /\ ~q THEN [acc EXCEPT !.out = Append(@, <<>>)] ELSE [q |-> q, out |-> [acc.out EXCEPT ![Len(acc.out)] = Append(@, x)]],
                    [q |-> FALSE, out |-> << <<>> >>], t)
  IN z.out
=============================================================================
