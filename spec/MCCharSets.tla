----------------------------- MODULE MCCharSets -----------------------------
(***************************************************************************)
(* CharSets checked against itself, and the algorithms used for partitions *)
(* as state machines, for all pairs of partitions of an alphabet of N      *)
(* points.                                                                 *)
(*   merge   the sweep over both interval lists refines Merge (coarsest    *)
(*           common refinement), with the complement witness kept by push  *)
(*   search  the two binary searches refine ClassOf and CoverOf            *)
(* Key facts used elsewhere: end point forms of the interval algebra, and  *)
(* order independence and neutral element of Merge.                        *)
(***************************************************************************)
EXTENDS CharSets, IOUtils, TLC

N == IF IOEnv.TIER = "thorough" THEN 7 ELSE 5
Points == 0..(N - 1)
Intervals == { x \in Points \X Points : x[1] <= x[2] }

RECURSIVE PartsFrom(_)
PartsFrom(a) ==      \* all partitions with intervals at or after point a
  {<<>>} \cup UNION { { <<x>> \o p : p \in PartsFrom(x[2] + 1) } : x \in { y \in Intervals : y[1] >= a } }
Parts == PartsFrom(0)

VARIABLES p1, p2, mode, i, j, x1, x2, out, wit
\* merge: x1, x2 are the rests of the current intervals (N: no more), i and j the next indices
\* search: i, j limits of the binary search for interval x1 in p1
vars == <<p1, p2, mode, i, j, x1, x2, out, wit>>

Get(p, n) == IF n < Len(p) THEN p[n + 1] ELSE <<N, N>>
Push(a, b) == out' = Append(out, <<a, b>>) /\ wit' = (IF wit = a THEN b + 1 ELSE wit)

InitMerge == /\ p1 \in Parts /\ p2 \in Parts /\ mode = "merge"
             /\ i = 1 /\ j = 1 /\ x1 = Get(p1, 0) /\ x2 = Get(p2, 0) /\ out = <<>> /\ wit = 0
InitSearch == /\ p1 \in Parts /\ p2 = <<>> /\ mode = "search"
              /\ i = 0 /\ j = Len(p1) /\ x1 \in Intervals /\ x2 = <<>> /\ out = <<>> /\ wit = 0
Init == InitMerge \/ InitSearch

Next1 == x1' = Get(p1, i) /\ i' = i + 1
Next2 == x2' = Get(p2, j) /\ j' = j + 1
Keep1 == UNCHANGED <<x1, i>>
Keep2 == UNCHANGED <<x2, j>>
MergeDone == x1[1] = N /\ x2[1] = N
Sweep ==
  /\ mode = "merge" /\ ~ MergeDone
  /\ LET a == x1[1]  b == x1[2]  c == x2[1]  d == x2[2] IN
     IF b < c THEN Push(a, b) /\ Next1 /\ Keep2
     ELSE IF d < a THEN Push(c, d) /\ Keep1 /\ Next2
     ELSE IF c < a THEN Push(c, a - 1) /\ Keep1 /\ x2' = <<a, d>> /\ UNCHANGED j
     ELSE IF a < c THEN Push(a, c - 1) /\ x1' = <<c, b>> /\ UNCHANGED i /\ Keep2
     ELSE IF b < d THEN Push(a, b) /\ Next1 /\ x2' = <<b + 1, d>> /\ UNCHANGED j
     ELSE IF d < b THEN Push(c, d) /\ x1' = <<d + 1, b>> /\ UNCHANGED i /\ Next2
     ELSE Push(a, b) /\ Next1 /\ Next2
  /\ UNCHANGED <<p1, p2, mode>>
\* largest interval that starts at or before the first point of x1
Halve ==
  /\ mode = "search" /\ i + 1 < j
  /\ LET h == i + (j - i) \div 2 IN
     IF p1[h + 1][1] <= x1[1] THEN i' = h /\ UNCHANGED j ELSE j' = h /\ UNCHANGED i
  /\ UNCHANGED <<p1, p2, mode, x1, x2, out, wit>>
Next == Sweep \/ Halve
Spec == Init /\ [][Next]_vars

MergeRefines ==
  (mode = "merge" /\ MergeDone) =>
    /\ out = Merge(<<p1, p2>>, N)
    /\ GoodWitness(IF wit >= N THEN -1 ELSE wit, out, N)
\* the answer of interval_cover when the search has ended
CoverAnswer ==
  LET a == x1[1]  b == x1[2]  ai == Get(p1, i)[1]  bi == Get(p1, i)[2] IN
  IF a < ai THEN (IF b < ai THEN -1 ELSE -2)
  ELSE IF a <= bi THEN (IF b <= bi THEN i ELSE -2)
  ELSE (IF b < Get(p1, i + 1)[1] THEN -1 ELSE -2)
SearchRefines ==
  (mode = "search" /\ i + 1 >= j) =>
    /\ CoverAnswer = CoverOf(p1, x1)
    /\ x1[1] = x1[2] => CoverAnswer = ClassOf(p1, x1[1])
Coarsest ==
  (mode = "merge" /\ MergeDone) =>
    \A s, t \in Points : (ClassOf(out, s) = ClassOf(out, t) /\ ClassOf(out, s) # -1) =>
       /\ ClassOf(p1, s) = ClassOf(p1, t) /\ ClassOf(p2, s) = ClassOf(p2, t)
CompInter == (mode = "merge" /\ MergeDone) => Comp(out, N) = Comp(p1, N) \cap Comp(p2, N)
OrderFree == (mode = "merge" /\ i = 1 /\ j = 1 /\ out = <<>>) =>
  /\ Merge(<<p1, p2>>, N) = Merge(<<p2, p1>>, N)
  /\ Merge(<<p1, <<>>>>, N) = Merge(<<p1>>, N)
  /\ WellFormed(Merge(<<p1, p2>>, N), N)

ASSUME \A x, y \in Intervals :
  /\ ECovers(x, y) = Covers(x, y) /\ EInter(x, y) = InterOf(x, y)
  /\ EUnion(x, y) = UnionOf(x, y) /\ ECmp(x, y) = Cmp(x, y)
=============================================================================
