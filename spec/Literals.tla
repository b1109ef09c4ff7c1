------------------------------ MODULE Literals ------------------------------
(***************************************************************************)
(* String literals of SMT-LIB 2.6: escape sequences, quotes.  Texts and    *)
(* strings are sequences of code points.                                   *)
(*                                                                         *)
(* An escape sequence is  \ud3d2d1d0  or  \u{d0} .. \u{d4d3d2d1d0}  with   *)
(* hexadecimal digits di and a value of at most 2FFFF.  No escape sequence *)
(* contains a backslash after its first character, so at most one starts   *)
(* at a position and they never overlap: a text is decoded from the left.  *)
(***************************************************************************)
EXTENDS Strings, TLC

Backslash == 92
LowerU == 117
LBrace == 123
RBrace == 125
Quote == 34
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexDigit(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
RECURSIVE HexRun(_, _, _)    \* number of hexadecimal digits from position i on, at most n
HexRun(t, i, n) == IF n > 0 /\ IsHex(At(t, i)) THEN 1 + HexRun(t, i + 1, n - 1) ELSE 0
RECURSIVE HexValue(_, _, _)  \* value of n digits from position i on
HexValue(t, i, n) == IF n = 0 THEN 0 ELSE 16 * HexValue(t, i, n - 1) + HexDigit(t[i + n - 1])

\* the escape sequence at position i: <<length, value>>, or <<0, 0>> if there is none
EscapeAt(t, i) ==
  IF At(t, i) = Backslash /\ At(t, i + 1) = LowerU
  THEN IF At(t, i + 2) = LBrace
       THEN LET n == HexRun(t, i + 3, 6) IN
            IF n \in 1..5 /\ At(t, i + 3 + n) = RBrace /\ HexValue(t, i + 3, n) <= MaxChar
            THEN <<n + 4, HexValue(t, i + 3, n)>> ELSE <<0, 0>>
       ELSE IF HexRun(t, i + 2, 4) = 4 THEN <<6, HexValue(t, i + 2, 4)>> ELSE <<0, 0>>
  ELSE <<0, 0>>

Positions(t) == [i \in 1..Len(t) |-> i]

\* a position is a character of the string unless it lies inside an escape
\* sequence (of length at most 9) that starts before it
Decode(t) ==
  LET e == TLCEval([i \in 1..Len(t) |-> EscapeAt(t, i)])
      Starts(i) == \A d \in 1..8 : i - d < 1 \/ e[i - d][1] <= d
      p == TLCEval(SelectSeq(Positions(t), Starts))
  IN [k \in 1..Len(p) |-> IF e[p[k]][1] > 0 THEN e[p[k]][2] ELSE t[p[k]]]

\* the body of a literal, quotes doubled: the quotes of t, from the left,
\* form pairs of neighbours
QuotePos(t) == LET IsQuote(i) == t[i] = Quote IN SelectSeq(Positions(t), IsQuote)
QuotesDoubled(t) ==
  LET q == TLCEval(QuotePos(t))
  IN Len(q) % 2 = 0 /\ \A k \in 1..(Len(q) \div 2) : q[2 * k] = q[2 * k - 1] + 1
Undouble(t) ==
  LET q == TLCEval(QuotePos(t))
      drop == TLCEval({q[2 * k] : k \in 1..(Len(q) \div 2)})
      Kept(i) == i \notin drop
      p == TLCEval(SelectSeq(Positions(t), Kept))
  IN [k \in 1..Len(p) |-> t[p[k]]]

Printable(t) == \A i \in DOMAIN t : t[i] \in 32..126

\* t is (the body of) a literal that denotes s
DenotesBody(t, s) == Printable(t) /\ QuotesDoubled(t) /\ Decode(Undouble(t)) = s
Denotes(t, s) == /\ Len(t) >= 2 /\ t[1] = Quote /\ t[Len(t)] = Quote
                 /\ DenotesBody(SubSeq(t, 2, Len(t) - 1), s)
=============================================================================
