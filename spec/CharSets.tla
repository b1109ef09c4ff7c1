------------------------------ MODULE CharSets ------------------------------
(***************************************************************************)
(* Character intervals and interval partitions, stated set-theoretically   *)
(* over a finite alphabet 0..N-1 (points).  An interval is a pair <<i,j>>  *)
(* with i <= j; a partition is a sequence of intervals, sorted and         *)
(* pairwise disjoint, plus the implicit complementary class (code -1).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Pts(x) == x[1]..x[2]                     \* the set denoted by interval x

Min(S) == CHOOSE a \in S : \A b \in S : a <= b
Max(S) == CHOOSE a \in S : \A b \in S : b <= a

IsInterval(S) == S # {} /\ Cardinality(S) = Max(S) - Min(S) + 1
AsInterval(S) == <<Min(S), Max(S)>>
OptInterval(S) == IF S = {} THEN <<>> ELSE AsInterval(S)      \* <<>> encodes None

(* ------------------------------ CharSet --------------------------------- *)
Covers(x, y)  == Pts(y) \subseteq Pts(x)
InterOf(x, y) == OptInterval(Pts(x) \cap Pts(y))
UnionOf(x, y) == LET S == Pts(x) \cup Pts(y) IN IF IsInterval(S) THEN AsInterval(S) ELSE <<>>
Before(x, y)  == \A a \in Pts(x), b \in Pts(y) : a < b
\* -1 less, 0 equal, 1 greater, 2 unrelated
Cmp(x, y) == IF Pts(x) = Pts(y) THEN 0 ELSE IF Before(x, y) THEN -1 ELSE IF Before(y, x) THEN 1 ELSE 2
\* (<) + 2*(<=) + 4*(>) + 8*(>=) + 16*(==)
OpsCode(x, y) == CASE Cmp(x, y) = 0 -> 2 + 8 + 16 [] Cmp(x, y) = -1 -> 1 + 2
                   [] Cmp(x, y) = 1 -> 4 + 8 [] Cmp(x, y) = 2 -> 0
RECURSIVE InterSeq(_, _)
InterSeq(l, S) == IF l = <<>> THEN S ELSE InterSeq(Tail(l), S \cap Pts(Head(l)))

(* the same facts by comparing end points: usable with code points (large sets).
   MCCharSets checks that they coincide with the definitions above. *)
ECovers(x, y) == x[1] <= y[1] /\ y[2] <= x[2]
Lo(a, b) == IF a <= b THEN a ELSE b
Hi(a, b) == IF a <= b THEN b ELSE a
EInter(x, y) == LET a == Hi(x[1], y[1])  b == Lo(x[2], y[2]) IN IF a <= b THEN <<a, b>> ELSE <<>>
EUnion(x, y) == IF y[1] > x[2] + 1 \/ x[1] > y[2] + 1 THEN <<>> ELSE <<Lo(x[1], y[1]), Hi(x[2], y[2])>>
ECmp(x, y) == IF x = y THEN 0 ELSE IF x[2] < y[1] THEN -1 ELSE IF y[2] < x[1] THEN 1 ELSE 2

(* ----------------------------- partitions -------------------------------- *)
PSet(p, i)  == Pts(p[i + 1])                        \* class i (0-based)
Comp(p, N)  == { t \in 0..(N - 1) : \A i \in DOMAIN p : t \notin Pts(p[i]) }
ClassOf(p, t) == IF \E i \in DOMAIN p : t \in Pts(p[i])
                 THEN (CHOOSE i \in DOMAIN p : t \in Pts(p[i])) - 1 ELSE -1
\* i: inside interval i; -1: meets no interval; -2: anything else
CoverOf(p, q) == IF \E i \in DOMAIN p : Pts(q) \subseteq Pts(p[i])
                 THEN (CHOOSE i \in DOMAIN p : Pts(q) \subseteq Pts(p[i])) - 1
                 ELSE IF \A i \in DOMAIN p : Pts(q) \cap Pts(p[i]) = {} THEN -1 ELSE -2
Sorted(p) == \A i \in 1..(Len(p) - 1) : p[i][2] < p[i + 1][1]
WellFormed(p, N) == Sorted(p) /\ \A i \in DOMAIN p : 0 <= p[i][1] /\ p[i][1] <= p[i][2] /\ p[i][2] < N
PairwiseDisjoint(l) == \A i, j \in DOMAIN l : i # j => Pts(l[i]) \cap Pts(l[j]) = {}
RECURSIVE SortIntervals(_)
SortIntervals(S) == IF S = {} THEN <<>>
                    ELSE LET m == CHOOSE x \in S : \A y \in S : x[1] <= y[1]
                         IN <<m>> \o SortIntervals(S \ {m})
\* a correct complement witness: a point of the complement, -1 iff there is none
GoodWitness(w, p, N) == IF Comp(p, N) = {} THEN w = -1 ELSE w \in Comp(p, N)
NumClasses(p, N) == Len(p) + (IF Comp(p, N) = {} THEN 0 ELSE 1)
ClassIds(p, N) == [i \in 1..NumClasses(p, N) |-> IF i <= Len(p) THEN i - 1 ELSE -1]
ClassSet(p, N, c) == IF c = -1 THEN Comp(p, N) ELSE PSet(p, c)

(* ------------------------------- merging --------------------------------- *)
(* Key(ps,t): the classes of t in every operand.  The coarsest common       *)
(* refinement whose non-complementary classes are intervals has as its      *)
(* intervals the maximal runs of consecutive points with the same key, other *)
(* than the runs of points that are in every complementary class.           *)
Key(ps, t) == [k \in DOMAIN ps |-> ClassOf(ps[k], t)]
AllComp(ps, t) == \A k \in DOMAIN ps : ClassOf(ps[k], t) = -1
RECURSIVE Runs(_, _, _)
\* runs of points t..N-1
Runs(ps, N, t) ==
  IF t >= N THEN <<>>
  ELSE LET e == CHOOSE e \in t..(N - 1) :
                   /\ \A u \in t..e : Key(ps, u) = Key(ps, t)
                   /\ e = N - 1 \/ Key(ps, e + 1) # Key(ps, t)
       IN (IF AllComp(ps, t) THEN <<>> ELSE << <<t, e>> >>) \o Runs(ps, N, e + 1)
Merge(ps, N) == Runs(ps, N, 0)
=============================================================================
