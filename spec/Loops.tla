------------------------------- MODULE Loops --------------------------------
(***************************************************************************)
(* Loop ranges (C15).  A range is <<lo, hi>> with hi = Infinite for an     *)
(* upward-infinite one; bounds are BigNat numbers.                         *)
(* Closed forms of the operations on the integer sets the ranges denote;   *)
(* MCLoops.tla checks them against the plain set definitions on all small  *)
(* ranges.                                                                 *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets

Infinite == <<-1>>
Fin(r) == r[2] # Infinite
IsZero(r) == r[1] = Big0 /\ r[2] = Big0

\* {x + y}
LAdd(r, s) == <<BigAdd(r[1], s[1]), IF Fin(r) /\ Fin(s) THEN BigAdd(r[2], s[2]) ELSE Infinite>>
\* {x1 + ... + xk}
LScale(r, k) == IF k = Big0 THEN <<Big0, Big0>>
                ELSE <<BigMul(k, r[1]), IF Fin(r) THEN BigMul(k, r[2]) ELSE Infinite>>
\* smallest interval that contains all x * y
LMul(r, s) == <<BigMul(r[1], s[1]),
                IF Fin(r) /\ Fin(s) THEN BigMul(r[2], s[2])
                ELSE IF IsZero(r) \/ IsZero(s) THEN Big0 ELSE Infinite>>
LShift(r) == <<BigDec(r[1]), IF Fin(r) THEN BigDec(r[2]) ELSE Infinite>>
LContains(r, x) == BigLeq(r[1], x) /\ (Fin(r) => BigLeq(x, r[2]))
\* s is included in r
LIncludes(r, s) == BigLeq(r[1], s[1]) /\ (Fin(r) => Fin(s) /\ BigLeq(s[2], r[2]))

\* is the union over y in s of the y-fold sums of r an interval (then it is LMul(r,s))?
LExact(r, s) ==
  IF s[1] = s[2] THEN TRUE
  ELSE IF ~ Fin(r) THEN s[1] # Big0 \/ BigLeq(r[1], Big(1))
  \* no gap between [c*a, c*b] and [(c+1)*a, (c+1)*b], the widest one: (c+1)*a <= c*b + 1
  ELSE BigLeq(BigMul(BigAdd(s[1], Big(1)), r[1]), BigAdd(BigMul(s[1], r[2]), Big(1)))

Fits(r) == BigLeq(r[1], U32) /\ (Fin(r) => BigLeq(r[2], U32))
=============================================================================
