----------------------------- MODULE TraceClosure ---------------------------
(***************************************************************************)
(* Derivative closure and bounded compilation (C19).                       *)
(*                                                                         *)
(* An event carries the derivative graph of a root term, explored by the   *)
(* harness through char_derivative alone and with nodes identified by      *)
(* pointer: succ[q][l] is the node of the derivative of node q w.r.t.      *)
(* letter l, node 1 is the root.  order: the nodes in the order in which   *)
(* iter_derivatives yielded them (0: a term outside of the graph).         *)
(*                                                                         *)
(* The specification of the iterator is a worklist machine: it yields the  *)
(* root first, then any not yet yielded node; it may only stop when every  *)
(* yielded node has had all its successors yielded.  The recorded order is *)
(* replayed as a behaviour of that machine; each Yield step must be        *)
(* enabled, and when the record ends Stop must be enabled.                 *)
(* Compilation: with N distinct derivatives, try_compile(n) answers        *)
(* exactly when 1 <= N <= n, with N states.                                *)
(***************************************************************************)
EXTENDS RegLan, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, pc, n, ok
\* k: event; pc: "iter" | "done"; n: number of terms yielded so far; ok: everything was allowed so far

vars == <<k, pc, n, ok>>

B(b) == IF b THEN 1 ELSE 0
Range(f) == { f[i] : i \in DOMAIN f }
Represents(L, R) ==
  LET C == Cuts(R) \cup {0} IN
  \A c \in C : \E l \in Range(L) : c <= l /\ \A d \in C : ~ (c < d /\ d <= l)

Yielded(e, m) == { e.order[i] : i \in 1..m }
Succs(e, q) == Range(e.succ[q])
RECURSIVE GraphReach(_, _, _)
GraphReach(e, Seen, F) ==
  IF F = {} THEN Seen
  ELSE LET N == (UNION { Succs(e, q) : q \in F }) \ Seen IN GraphReach(e, Seen \cup N, N)
Closed(e, S) == \A q \in S : Succs(e, q) \subseteq S

\* may the term numbered x be yielded as item m+1?
YieldEnabled(e, m, x) ==
  /\ x \in DOMAIN e.succ
  /\ IF m = 0 THEN x = 1 ELSE x \notin Yielded(e, m)
StopEnabled(e, m) == m > 0 /\ Closed(e, Yielded(e, m)) /\ Yielded(e, m) = GraphReach(e, {1}, {1})

CompileOK(e) ==
  LET N == Cardinality(GraphReach(e, {1}, {1})) IN
  /\ N = Len(e.succ)
  /\ e.comp = N
  /\ \A i \in DOMAIN e.tries : LET t == e.tries[i] IN
       IF N <= t[1] THEN t[2] = 1 /\ t[3] = N ELSE t[2] = 0
  /\ Represents(e.L, Norm(e.t))

\* count events: terms with very many derivatives, in numbers only.  nodes: terms found through
\* char_derivative alone; yielded, distinct: terms yielded by the iterator; outside: those of them
\* that are no node
CountOK(e) ==
  /\ e.first = 1 /\ e.outside = 0
  /\ e.yielded = e.nodes /\ e.distinct = e.nodes
  /\ e.comp = e.nodes
  /\ \A i \in DOMAIN e.tries : LET t == e.tries[i] IN
       IF e.nodes <= t[1] THEN t[2] = 1 /\ t[3] = e.nodes ELSE t[2] = 0

Init == /\ k \in 1..Len(Trace)
        /\ n = 0
        /\ \/ /\ pc = "iter"
              /\ Trace[k].op # "count"
              /\ ok = (Trace[k].op = "closure" /\ CompileOK(Trace[k]))
           \/ /\ pc = "done"
              /\ Trace[k].op = "count" /\ ok = CountOK(Trace[k])
Yield == LET e == Trace[k] IN
         /\ pc = "iter" /\ ok /\ n < Len(e.order)
         /\ ok' = YieldEnabled(e, n, e.order[n + 1])
         /\ n' = n + 1
         /\ UNCHANGED <<k, pc>>
Stop == LET e == Trace[k] IN
        /\ pc = "iter" /\ ok /\ n = Len(e.order)
        /\ ok' = StopEnabled(e, n)
        /\ pc' = "done"
        /\ UNCHANGED <<k, n>>
Next == Yield \/ Stop
Spec == Init /\ [][Next]_vars

CallAccepted == ok
=============================================================================
