----------------------------- MODULE MCBuilder ------------------------------
(***************************************************************************)
(* The builder of the crate as a state machine: per state a list of        *)
(* labelled edges in the order of the calls plus a default; build first    *)
(* decides conflicts by sorting the labels and comparing neighbours (after *)
(* merging overlapping labels with the same successor), coverage by the    *)
(* sorted labels.  All sessions of at most Calls calls over two names and  *)
(* the characters 0..M are explored; the outcome has to be the one of the  *)
(* specification (Builder), which is itself compared with a definition     *)
(* over single characters.                                                 *)
(***************************************************************************)
EXTENDS Builder, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
M == IF Deep THEN 3 ELSE 2
Calls == IF Deep THEN 4 ELSE 3
Names == {1, 2}
Chars == 0..M
Labels == { x \in Chars \X Chars : x[1] <= x[2] }

VARIABLES trans, dflt, edges, def, n
vars == <<trans, dflt, edges, def, n>>
\* edges of state 1 (the one under test), as <<a, b, t>>; def: 0 or the default
Init == trans = {} /\ dflt = {} /\ edges = <<>> /\ def = 0 /\ n = 0
Add(l, t) == /\ n < Calls /\ n' = n + 1
             /\ trans' = trans \cup { <<1, l[1], l[2], t>> }
             /\ edges' = Append(edges, <<l[1], l[2], t>>)
             /\ UNCHANGED <<dflt, def>>
SetDefault(t) == /\ n < Calls /\ n' = n + 1
                 /\ dflt' = { <<1, t>> } /\ def' = t
                 /\ UNCHANGED <<trans, edges>>
Next == \/ \E l \in Labels, t \in Names : Add(l, t)
        \/ \E t \in Names : SetDefault(t)
Spec == Init /\ [][Next]_vars

\* sorted by label
RECURSIVE Sort(_)
Sort(E) == IF E = {} THEN <<>>
  ELSE LET x == CHOOSE x \in E : \A y \in E : x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] <= y[3])))
       IN <<x>> \o Sort(E \ {x})
\* sweep over the sorted labels: disjoint labels, or "conflict"
RECURSIVE Sweep(_, _)
Sweep(out, l) ==
  IF l = <<>> THEN out
  ELSE LET x == Head(l) IN
       IF out = <<>> THEN Sweep(<<x>>, Tail(l))
       ELSE LET y == out[Len(out)]  front == SubSeq(out, 1, Len(out) - 1) IN
            IF x[1] > y[2] THEN Sweep(Append(out, x), Tail(l))
            ELSE IF x[3] = y[3]
                 THEN Sweep(Append(front, <<y[1], IF x[2] > y[2] THEN x[2] ELSE y[2], x[3]>>), Tail(l))
                 ELSE <<<<-1, -1, -1>>>>
Swept == Sweep(<<>>, Sort({ edges[i] : i \in DOMAIN edges }))
Clash == Swept = <<<<-1, -1, -1>>>>
RECURSIVE CoversFrom(_, _)
CoversFrom(l, c) == IF c > M THEN TRUE ELSE l # <<>> /\ Head(l)[1] = c /\ CoversFrom(Tail(l), Head(l)[2] + 1)
Complete == ~ Clash /\ (CoversFrom(Swept, 0) \/ def # 0)
Successor(c) == IF \E i \in DOMAIN Swept : Swept[i][1] <= c /\ c <= Swept[i][2]
                THEN (CHOOSE x \in { Swept[i] : i \in DOMAIN Swept } : x[1] <= c /\ c <= x[2])[3] ELSE def

Refines == /\ Complete = ~ Broken(trans, dflt, 1, M)
           /\ Complete => \A c \in Chars : Successor(c) = Delta(trans, dflt, 1, c)
\* the pieces decide like the single characters do
Pointwise ==
  /\ Conflict(trans, 1, M) = \E c \in Chars : Cardinality(Explicit(trans, 1, c)) > 1
  /\ Uncovered(trans, 1, M) = \E c \in Chars : Explicit(trans, 1, c) = {}
=============================================================================
