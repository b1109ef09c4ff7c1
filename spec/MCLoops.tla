------------------------------ MODULE MCLoops -------------------------------
(* The closed forms of Loops against the set definitions, for all ranges    *)
(* with bounds below N; infinite sets are compared in the window 0..W       *)
EXTENDS Loops, TLC
N == 6
W == 80
Bound == 0..(N - 1)
R == { <<Big(x[1]), Big(x[2])>> : x \in { y \in Bound \X Bound : y[1] <= y[2] } } \cup { <<Big(a), Infinite>> : a \in Bound }
Set(r) == { x \in 0..W : LContains(r, Big(x)) }
Sums(A, B) == { x \in 0..W : \E a \in A : a <= x /\ (x - a) \in B }
RECURSIVE Fold(_, _)
Fold(A, k) == IF k = 0 THEN {0} ELSE Sums(A, Fold(A, k - 1))
Products(A, B) == { x \in 0..W : \E a \in A : IF a = 0 THEN x = 0 /\ B # {} ELSE x % a = 0 /\ (x \div a) \in B }
\* y-fold sums of [a,b] without folding: used for unbounded y
Multiple(r, y) == IF y = 0 THEN {0} ELSE { x \in 0..W : y * Small(r[1]) <= x /\ (Fin(r) => x <= y * Small(r[2])) }
VARIABLES r, s, done
Init == r \in R /\ s \in R /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<r, s>>
Spec == Init /\ [][Next]_<<r, s, done>>
Ys == Set(s)
Union == UNION { Multiple(r, y) : y \in Ys }
Agree == done =>
  /\ Set(LAdd(r, s)) = Sums(Set(r), Set(s))
  /\ \A k \in 0..4 : Set(LScale(r, Big(k))) = Fold(Set(r), k)
  /\ \A k \in 0..4 : Multiple(r, k) = Fold(Set(r), k)
  /\ Products(Set(r), Set(s)) \subseteq Set(LMul(r, s))
  /\ Set(LShift(r)) = { IF x = 0 THEN 0 ELSE x - 1 : x \in Set(r) } \cup (IF Fin(r) THEN {} ELSE {W})
  /\ LIncludes(r, s) = (Set(s) \subseteq Set(r))
  /\ LExact(r, s) = (Union = Set(LMul(r, s)))
\* BigNat against TLC's integers
Nums == {0, 1, 2, 9, 9999, 10000, 10001, 12345, 46340, 99999999, 1073741823}
ASSUME \A x, y \in Nums : BigAdd(Big(x), Big(y)) = Big(x + y) /\ IsBig(Big(x))
ASSUME \A x, y \in Nums : (x < 46341 /\ y < 46341) => BigMul(Big(x), Big(y)) = Big(x * y)
ASSUME \A x, y \in Nums : BigLeq(Big(x), Big(y)) = (x <= y)
ASSUME \A x \in Nums : BigDec(Big(x)) = Big(IF x = 0 THEN 0 ELSE x - 1) /\ Small(Big(x)) = x
ASSUME BigAdd(BigAdd(Big(2147483647), Big(2147483647)), Big(1)) = U32
=============================================================================
