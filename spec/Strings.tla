------------------------------- MODULE Strings ------------------------------
(***************************************************************************)
(* The SMT-LIB 2.6 theory of strings, regular expressions aside.           *)
(* A string is a sequence of code points 0..196607; positions are 0-based. *)
(* Indices and lengths are any 32-bit integers, so nothing below adds to   *)
(* an index before it is known to be inside of the string.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxChar == 196607
ReplacementChar == 65533
IsChar(c) == c \in 0..MaxChar
IsString(s) == \A i \in DOMAIN s : IsChar(s[i])

Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* s[i..j) of a string
Cut(s, i, j) == SubSeq(s, i + 1, j)

StrAt(s, i) == IF 0 <= i /\ i < Len(s) THEN <<s[i + 1]>> ELSE <<>>

Substr(s, i, n) ==
  IF i < 0 \/ i >= Len(s) \/ n <= 0 THEN <<>>
  ELSE Cut(s, i, IF n >= Len(s) - i THEN Len(s) ELSE i + n)

OccursAt(p, s, k) == k + Len(p) <= Len(s) /\ Cut(s, k, k + Len(p)) = p
Occurrences(p, s) == { k \in 0..(Len(s) - Len(p)) : OccursAt(p, s, k) }

PrefixOf(p, s) == OccursAt(p, s, 0)
SuffixOf(p, s) == Len(p) <= Len(s) /\ OccursAt(p, s, Len(s) - Len(p))
Contains(s, p) == Occurrences(p, s) # {}

IndexOf(s, p, i) ==
  IF i < 0 \/ i > Len(s) THEN -1
  ELSE LET K == { k \in Occurrences(p, s) : k >= i } IN IF K = {} THEN -1 ELSE Min(K)

Replace(s, p, r) ==
  LET K == Occurrences(p, s) IN
  IF K = {} THEN s ELSE Cut(s, 0, Min(K)) \o r \o Cut(s, Min(K) + Len(p), Len(s))

RECURSIVE ReplaceAllFrom(_, _, _, _)
ReplaceAllFrom(s, p, r, i) ==
  LET K == { k \in Occurrences(p, s) : k >= i } IN
  IF K = {} THEN Cut(s, i, Len(s))
  ELSE Cut(s, i, Min(K)) \o r \o ReplaceAllFrom(s, p, r, Min(K) + Len(p))
ReplaceAll(s, p, r) == IF p = <<>> THEN s ELSE ReplaceAllFrom(s, p, r, 0)

(* ------------------------------------------------- order and conversions *)
\* the first position in which s and t differ decides; a proper prefix is smaller
LexLt(s, t) ==
  \/ Len(s) < Len(t) /\ PrefixOf(s, t)
  \/ \E i \in 1..(IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)) :
       /\ s[i] < t[i]
       /\ \A j \in 1..(i - 1) : s[j] = t[j]
LexLe(s, t) == s = t \/ LexLt(s, t)

IsDigitChar(c) == c \in 48..57
IsDigit(s) == Len(s) = 1 /\ IsDigitChar(s[1])
ToCode(s) == IF Len(s) = 1 THEN s[1] ELSE -1
FromCode(n) == IF 0 <= n /\ n <= MaxChar THEN <<n>> ELSE <<>>

RECURSIVE Digits(_)          \* decimal notation of a natural number, most significant first
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
FromInt(n) == IF n < 0 THEN <<>> ELSE Digits(n)

IsNumeral(s) == s # <<>> /\ \A i \in DOMAIN s : IsDigitChar(s[i])
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN StripZeros(Tail(s)) ELSE s
\* numerals without leading zeros are ordered by length, then lexicographically
NumLe(s, t) == Len(s) < Len(t) \/ (Len(s) = Len(t) /\ LexLe(s, t))
MaxInt == 2147483647
FitsInt(s) == NumLe(StripZeros(s), Digits(MaxInt))
RECURSIVE Value(_, _)
Value(s, i) == IF i = 0 THEN 0 ELSE 10 * Value(s, i - 1) + (s[i] - 48)
\* only for strings that are not numerals or whose value fits
ToInt(s) == IF ~ IsNumeral(s) THEN -1 ELSE LET d == StripZeros(s) IN Value(d, Len(d))
=============================================================================
