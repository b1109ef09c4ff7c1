------------------------------- MODULE BigNat -------------------------------
(* Natural numbers as little-endian digit sequences in base 10000 (TLC's    *)
(* integers have 32 bits; loop bounds and their products do not fit).       *)
(* The last digit is never 0; zero is <<>>.                                 *)
EXTENDS Integers, Sequences

Base == 10000
Big0 == <<>>
RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Big(n \div Base)

Digit(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
RECURSIVE Trim(_)
Trim(x) == IF x = <<>> THEN x ELSE IF x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x

RECURSIVE AddFrom(_, _, _, _)
AddFrom(x, y, i, carry) ==
  IF i > Len(x) /\ i > Len(y) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == Digit(x, i) + Digit(y, i) + carry
       IN <<s % Base>> \o AddFrom(x, y, i + 1, s \div Base)
BigAdd(x, y) == AddFrom(x, y, 1, 0)

RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(x, d, i, carry) ==
  IF i > Len(x) THEN Big(carry)
  ELSE LET s == x[i] * d + carry IN <<s % Base>> \o ScaleFrom(x, d, i + 1, s \div Base)
RECURSIVE BigMul(_, _)
BigMul(x, y) ==
  IF x = <<>> \/ y = <<>> THEN <<>>
  ELSE Trim(BigAdd(Trim(ScaleFrom(x, y[1], 1, 0)),
                   LET r == BigMul(x, Tail(y)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r))

RECURSIVE LeqAt(_, _, _)
LeqAt(x, y, i) == IF i = 0 THEN TRUE
                  ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LeqAt(x, y, i - 1)
BigLeq(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LeqAt(x, y, Len(x))
BigLt(x, y) == BigLeq(x, y) /\ x # y

\* x - 1, for x > 0; x - 1 = 0 for x = 0
RECURSIVE DecFrom(_, _)
DecFrom(x, i) == IF x[i] > 0 THEN [x EXCEPT ![i] = @ - 1] ELSE DecFrom([x EXCEPT ![i] = Base - 1], i + 1)
BigDec(x) == IF x = <<>> THEN <<>> ELSE Trim(DecFrom(x, 1))

RECURSIVE Small(_)
Small(x) == IF x = <<>> THEN 0 ELSE x[1] + Base * Small(Tail(x))     \* only for small x

U32 == <<7295, 9496, 42>>         \* 2^32 - 1 = 4294967295
IsBig(x) == \A i \in DOMAIN x : x[i] \in 0..(Base - 1) /\ (i = Len(x) => x[i] # 0)
=============================================================================
