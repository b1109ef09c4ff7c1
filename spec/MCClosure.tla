----------------------------- MODULE MCClosure ------------------------------
(***************************************************************************)
(* iter_derivatives and try_compile as a queue machine over ALL derivative *)
(* graphs of N nodes and L letters: the queue holds nodes not yet yielded, *)
(* a node enters it once.  The machine refines the worklist specification  *)
(* of TraceClosure (yield the root first, never twice, stop when closed),  *)
(* terminates, and the bounded compilation stops with "too many" exactly   *)
(* if more than max nodes are reachable, whatever the order of letters.    *)
(* The order of the queue is first-in first-out as in the crate; Lifo      *)
(* shows that the specification does not depend on it.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
N == IF Deep THEN 4 ELSE 3
L == 2
VARIABLES succ, max, lifo, queue, seen, yielded, pc
vars == <<succ, max, lifo, queue, seen, yielded, pc>>
Range(f) == { f[i] : i \in DOMAIN f }
Init == /\ succ \in [1..N -> [1..L -> 1..N]] /\ max \in 0..N /\ lifo \in BOOLEAN
        /\ seen = {1} /\ yielded = <<>>
        /\ IF max = 0 THEN pc = "toomany" /\ queue = <<>> ELSE pc = "run" /\ queue = <<1>>
RECURSIVE PushAll(_, _, _)
PushAll(q, sn, l) == IF l = <<>> THEN <<q, sn>>
  ELSE IF Head(l) \in sn THEN PushAll(q, sn, Tail(l))
  ELSE PushAll(Append(q, Head(l)), sn \cup {Head(l)}, Tail(l))
Pop == /\ pc = "run" /\ queue # <<>>
       /\ LET x == IF lifo THEN queue[Len(queue)] ELSE Head(queue)
              rest == IF lifo THEN SubSeq(queue, 1, Len(queue) - 1) ELSE Tail(queue)
              p == PushAll(rest, seen, succ[x]) IN
          /\ queue' = p[1] /\ seen' = p[2] /\ yielded' = Append(yielded, x)
          /\ pc' = (IF Cardinality(p[2]) > max THEN "toomany" ELSE "run")
       /\ UNCHANGED <<succ, max, lifo>>
Stop == /\ pc = "run" /\ queue = <<>> /\ pc' = "done"
        /\ UNCHANGED <<succ, max, lifo, queue, seen, yielded>>
Next == Pop \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Reach(_, _)
Reach(S, F) == IF F = {} THEN S
               ELSE LET M == (UNION { Range(succ[q]) : q \in F }) \ S IN Reach(S \cup M, M)
All == Reach({1}, {1})
\* the worklist specification
Closed(S) == \A q \in S : Range(succ[q]) \subseteq S
OnceEach == Cardinality(Range(yielded)) = Len(yielded) /\ (yielded # <<>> => yielded[1] = 1)
Exact == pc = "done" => Range(yielded) = All /\ Closed(All) /\ Cardinality(All) <= max
Refused == pc = "toomany" => Cardinality(All) > max
Invariant == pc # "toomany" =>
             /\ seen = Range(yielded) \cup Range(queue)
             /\ Range(yielded) \cap Range(queue) = {}
             /\ \A q \in Range(yielded) : Range(succ[q]) \subseteq seen
Ends == <>(pc # "run")
=============================================================================
