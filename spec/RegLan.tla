------------------------------- MODULE RegLan -------------------------------
(***************************************************************************)
(* SMT-LIB regular languages over the alphabet 0 .. 196607 (code points).  *)
(*                                                                         *)
(* CONSTRUCTION TERMS describe how a caller built an expression.  They are *)
(* tuples whose first element is the constructor:                          *)
(*   <<"none">> <<"eps">> <<"all">> <<"any">>                              *)
(*   <<"rng",a,b>>        characters a..b   (a = b: single character)      *)
(*   <<"str",w>>          str.to_re of the sequence w of code points       *)
(*   <<"cat",ts>> <<"alt",ts>> <<"and",ts>>     ts: sequence of terms      *)
(*   <<"not",t>> <<"diff",t,ts>>                                           *)
(*   <<"star",t>> <<"plus",t>> <<"opt",t>> <<"pow",t,n>>                   *)
(*   <<"loop",t,i,j>>     j = -1 stands for "no upper limit"               *)
(*                                                                         *)
(* Two semantics are given.                                                *)
(*  1. DENOTATION  Spans(t,w): the set of <<i,j>> such that w[i+1..j] is   *)
(*     in the language SMT-LIB assigns to t.  It transcribes the SMT-LIB   *)
(*     definitions (concatenation is relational composition, complement is *)
(*     set difference, star is reflexive-transitive closure).              *)
(*  2. RESIDUALS   Norm(t) and D(c,r): a finite transition system whose    *)
(*     states are residual languages and whose accepting states are the    *)
(*     nullable ones.  This is the one used to search unbounded words.     *)
(* MCRegLan.tla checks that 2 agrees with 1.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxChar == 196607          \* 0x2FFFF
Inf == -1

(***************************** 1. denotation *******************************)

Comp(A, B) == UNION { { <<p[1], q[2]>> : q \in { x \in B : x[1] = p[2] } } : p \in A }

IdSpans(n)  == { <<i, i>> : i \in 0..n }
AllSpans(n) == { s \in (0..n) \X (0..n) : s[1] <= s[2] }

RECURSIVE PowSpans(_, _, _)
PowSpans(A, k, n) == IF k = 0 THEN IdSpans(n) ELSE Comp(PowSpans(A, k - 1, n), A)

RECURSIVE ClosureSpans(_, _)
ClosureSpans(A, X) == LET Y == X \cup Comp(X, A) IN IF Y = X THEN X ELSE ClosureSpans(A, Y)

StarSpans(A, n) == ClosureSpans(A, IdSpans(n))

\* X, X.A, ..., X.A^k together
RECURSIVE UpTo(_, _, _)
UpTo(A, X, k) ==
  IF k = 0 THEN X ELSE LET Y == X \cup Comp(X, A) IN IF Y = X THEN X ELSE UpTo(A, Y, k - 1)

\* union of the powers i..j (none if i > j)
LoopSpans(A, i, j, n) ==
  IF j = Inf THEN Comp(PowSpans(A, i, n), StarSpans(A, n))
  ELSE IF i > j THEN {}
  ELSE UpTo(A, PowSpans(A, i, n), j - i)

RECURSIVE Spans(_, _)
RECURSIVE CatSpans(_, _)
Spans(t, w) ==
  LET n == Len(w) IN
  CASE t[1] = "none" -> {}
    [] t[1] = "eps"  -> IdSpans(n)
    [] t[1] = "all"  -> AllSpans(n)
    [] t[1] = "any"  -> { <<i, i + 1>> : i \in 0..(n - 1) }
    [] t[1] = "rng"  -> { <<i, i + 1>> : i \in { x \in 0..(n - 1) : t[2] <= w[x + 1] /\ w[x + 1] <= t[3] } }
    [] t[1] = "str"  -> LET m == Len(t[2]) IN
                        { <<i, i + m>> : i \in { x \in 0..(n - m) : SubSeq(w, x + 1, x + m) = t[2] } }
    [] t[1] = "cat"  -> CatSpans(t[2], w)
    [] t[1] = "alt"  -> UNION { Spans(t[2][i], w) : i \in DOMAIN t[2] }
    [] t[1] = "and"  -> LET A == TLCEval([ i \in DOMAIN t[2] |-> Spans(t[2][i], w) ]) IN
                        { s \in AllSpans(n) : \A i \in DOMAIN t[2] : s \in A[i] }
    [] t[1] = "not"  -> AllSpans(n) \ Spans(t[2], w)
    [] t[1] = "diff" -> Spans(t[2], w) \ UNION { Spans(t[3][i], w) : i \in DOMAIN t[3] }
    [] t[1] = "star" -> StarSpans(Spans(t[2], w), n)
    [] t[1] = "plus" -> LET A == Spans(t[2], w) IN Comp(A, StarSpans(A, n))
    [] t[1] = "opt"  -> IdSpans(n) \cup Spans(t[2], w)
    [] t[1] = "pow"  -> PowSpans(Spans(t[2], w), t[3], n)
    [] t[1] = "loop" -> LoopSpans(Spans(t[2], w), t[3], t[4], n)

CatSpans(ts, w) ==
  IF ts = <<>> THEN IdSpans(Len(w))
  ELSE Comp(Spans(Head(ts), w), CatSpans(Tail(ts), w))

Member(t, w) == <<0, Len(w)>> \in Spans(t, w)

(****************************** 2. residuals *******************************)
(* Residuals: <<"0">> empty, <<"1">> epsilon, <<"rng",a,b>>,               *)
(* <<"cat",x,y>>, <<"alt",S>>, <<"and",S>>, <<"not",x>>, <<"loop",x,i,j>>. *)

None == <<"0">>
Eps  == <<"1">>
All  == <<"not", None>>

RNot(x) == IF x[1] = "not" THEN x[2] ELSE <<"not", x>>

Alts(x) == IF x[1] = "alt" THEN x[2] ELSE IF x = None THEN {} ELSE {x}
RAltSet(X) ==
  LET S == UNION { Alts(x) : x \in X } IN
  IF S = {} THEN None
  ELSE IF All \in S THEN All
  ELSE IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE
  ELSE <<"alt", S>>

Ands(x) == IF x[1] = "and" THEN x[2] ELSE IF x = All THEN {} ELSE {x}
RAndSet(X) ==
  LET S == UNION { Ands(x) : x \in X } IN
  IF S = {} THEN All
  ELSE IF None \in S THEN None
  ELSE IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE
  ELSE <<"and", S>>

RECURSIVE RCat(_, _)
RCat(x, y) ==
  IF x = None \/ y = None THEN None
  ELSE IF x = Eps THEN y
  ELSE IF y = Eps THEN x
  ELSE IF x[1] = "cat" THEN RCat(x[2], RCat(x[3], y))
  ELSE IF x[1] = "alt" THEN RAltSet({ RCat(z, y) : z \in x[2] })
  ELSE IF x = All /\ y = All THEN All
  ELSE <<"cat", x, y>>

RLoop(x, i, j) ==
  IF j # Inf /\ i > j THEN None            \* SMT-LIB: re.loop with i > j is re.none
  ELSE IF j = 0 THEN Eps
  ELSE IF i = 1 /\ j = 1 THEN x
  ELSE IF x = None THEN (IF i = 0 THEN Eps ELSE None)
  ELSE IF x = Eps THEN Eps
  ELSE <<"loop", x, i, j>>

RRange(a, b) == IF a > b THEN None ELSE <<"rng", a, b>>

RECURSIVE RStr(_)
RStr(w) == IF w = <<>> THEN Eps ELSE RCat(RRange(Head(w), Head(w)), RStr(Tail(w)))

RECURSIVE Norm(_)
RECURSIVE NormCat(_)
Norm(t) ==
  CASE t[1] = "none" -> None
    [] t[1] = "eps"  -> Eps
    [] t[1] = "all"  -> All
    [] t[1] = "any"  -> RRange(0, MaxChar)
    [] t[1] = "rng"  -> RRange(t[2], t[3])
    [] t[1] = "str"  -> RStr(t[2])
    [] t[1] = "cat"  -> NormCat(t[2])
    [] t[1] = "alt"  -> RAltSet({ Norm(t[2][i]) : i \in DOMAIN t[2] })
    [] t[1] = "and"  -> RAndSet({ Norm(t[2][i]) : i \in DOMAIN t[2] })
    [] t[1] = "not"  -> RNot(Norm(t[2]))
    [] t[1] = "diff" -> RAndSet({ Norm(t[2]) } \cup { RNot(Norm(t[3][i])) : i \in DOMAIN t[3] })
    [] t[1] = "star" -> RLoop(Norm(t[2]), 0, Inf)
    [] t[1] = "plus" -> RLoop(Norm(t[2]), 1, Inf)
    [] t[1] = "opt"  -> RAltSet({ Eps, Norm(t[2]) })
    [] t[1] = "pow"  -> RLoop(Norm(t[2]), t[3], t[3])
    [] t[1] = "loop" -> RLoop(Norm(t[2]), t[3], t[4])
NormCat(ts) == IF ts = <<>> THEN Eps ELSE RCat(Norm(Head(ts)), NormCat(Tail(ts)))

RECURSIVE Nul(_)
Nul(r) ==
  CASE r[1] = "0"    -> FALSE
    [] r[1] = "1"    -> TRUE
    [] r[1] = "rng"  -> FALSE
    [] r[1] = "cat"  -> Nul(r[2]) /\ Nul(r[3])
    [] r[1] = "alt"  -> \E x \in r[2] : Nul(x)
    [] r[1] = "and"  -> \A x \in r[2] : Nul(x)
    [] r[1] = "not"  -> ~ Nul(r[2])
    [] r[1] = "loop" -> r[3] = 0 \/ Nul(r[2])

Dec(n) == IF n = Inf THEN Inf ELSE IF n = 0 THEN 0 ELSE n - 1

RECURSIVE D(_, _)
D(c, r) ==
  CASE r[1] = "0"    -> None
    [] r[1] = "1"    -> None
    [] r[1] = "rng"  -> IF r[2] <= c /\ c <= r[3] THEN Eps ELSE None
    [] r[1] = "cat"  -> LET d == RCat(D(c, r[2]), r[3]) IN
                        IF Nul(r[2]) THEN RAltSet({ d, D(c, r[3]) }) ELSE d
    [] r[1] = "alt"  -> RAltSet({ D(c, x) : x \in r[2] })
    [] r[1] = "and"  -> RAndSet({ D(c, x) : x \in r[2] })
    [] r[1] = "not"  -> RNot(D(c, r[2]))
    [] r[1] = "loop" -> RCat(D(c, r[2]), RLoop(r[2], Dec(r[3]), Dec(r[4])))

RECURSIVE DW(_, _)
DW(w, r) == IF w = <<>> THEN r ELSE DW(Tail(w), D(Head(w), r))

MemberR(r, w) == Nul(DW(w, r))

\* all residuals reachable from the set F by words over the letters in Ls
RECURSIVE Reach(_, _, _)
Reach(Seen, F, Ls) ==
  IF F = {} THEN Seen
  ELSE LET N == TLCEval(TLCEval({ D(c, r) : c \in Ls, r \in F }) \ Seen)
       IN Reach(TLCEval(Seen \cup N), N, Ls)

\* some residual reachable from F is nullable (= \E x \in Reach(F, F, Ls) : Nul(x), but the search
\* ends with the first one found; MCRegLan checks this equality)
RECURSIVE Finds(_, _, _)
Finds(Seen, F, Ls) ==
  IF \E x \in F : Nul(x) THEN TRUE
  ELSE IF F = {} THEN FALSE
  ELSE LET N == TLCEval(TLCEval({ D(c, r) : c \in Ls, r \in F }) \ Seen)
       IN Finds(TLCEval(Seen \cup N), N, Ls)
NonEmpty(r, Ls) == Finds({r}, {r}, Ls)

(********************** letters that represent the alphabet ****************)
\* left end points of the cells of the alphabet on which every residual of r is uniform
RECURSIVE Cuts(_)
Cuts(r) ==
  CASE r[1] = "0"    -> {}
    [] r[1] = "1"    -> {}
    [] r[1] = "rng"  -> { r[2] } \cup (IF r[3] < MaxChar THEN { r[3] + 1 } ELSE {})
    [] r[1] = "cat"  -> Cuts(r[2]) \cup Cuts(r[3])
    [] r[1] = "alt"  -> UNION { Cuts(x) : x \in r[2] }
    [] r[1] = "and"  -> UNION { Cuts(x) : x \in r[2] }
    [] r[1] = "not"  -> Cuts(r[2])
    [] r[1] = "loop" -> Cuts(r[2])
Letters(r) == Cuts(r) \cup {0}
=============================================================================
