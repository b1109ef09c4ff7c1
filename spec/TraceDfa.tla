------------------------------ MODULE TraceDfa ------------------------------
(***************************************************************************)
(* Automata transformations: minimize (C04), remove_unreachable_states and *)
(* the compiled successor table (C14).                                     *)
(*                                                                         *)
(* An automaton is recorded as succ[q][l] (q: state id + 1, l: index of a  *)
(* letter of L), fin[q], init, nf (num_final_states), fl (final_states);   *)
(* the same fields with suffix 2 after the transformation.                 *)
(*                                                                         *)
(* mode = "call"  the static facts of the event are judged ("table": those *)
(*                of the successor table of a larger automaton alone)      *)
(* mode = "prod"  synchronous run of the two automata; they must agree on  *)
(*                acceptance at every reachable pair (language equality)   *)
(* mode = "moore" Moore's refinement of the states of the minimized        *)
(*                automaton: part[q] = least state equivalent to q so far; *)
(*                at the fixpoint all classes must be singletons           *)
(*                (automata of at most MooreMax states; for larger ones    *)
(*                the event carries words, sep, and the specification      *)
(*                checks that any two states differ on one of them)        *)
(* mode = "pair"  (prune) the pairs reached by the synchronous run are     *)
(*                collected; they must be a bijection between the          *)
(*                reachable states before and all states after             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

MaxChar == 196607

VARIABLES k, mode, ok, p, q, part

vars == <<k, mode, ok, p, q, part>>

Range(f) == { f[i] : i \in DOMAIN f }
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* a recorded automaton is well formed and its descriptions of the final states agree
Wf(succ, fin, init, nf, fl, L) ==
  LET n == Len(succ)
      F == { x \in 1..n : fin[x] = 1 } IN
  /\ n >= 1 /\ Len(fin) = n
  /\ init \in 1..n
  /\ \A x \in 1..n : Len(succ[x]) = Len(L) /\ \A l \in DOMAIN L : succ[x][l] \in 1..n
  /\ nf = Cardinality(F)
  /\ Range(fl) = F /\ Len(fl) = Cardinality(F)

\* sep[i] = <<l, j>>: the word "letter l, then word j" (j < i); <<0, 0>>: the empty word.
\* Rows(e, i, T): T extended by the row of word i, that is the set of states that accept it, ...
MooreMax == 40
RECURSIVE Rows(_, _, _)
Rows(e, i, T) ==
  IF i > Len(e.sep) THEN T
  ELSE LET l == e.sep[i][1]  j == e.sep[i][2]
           row == IF l = 0 THEN { x \in DOMAIN e.fin2 : e.fin2[x] = 1 }
                  ELSE { x \in DOMAIN e.fin2 : (e.succ2[x] \o e.xsucc[x])[l] \in T[j] }
       IN Rows(e, i + 1, Append(T, row))
Separated(e) ==
  LET T == Rows(e, 1, <<>>)
      sig == [ x \in DOMAIN e.fin2 |-> { i \in DOMAIN T : x \in T[i] } ]
  IN Cardinality({ sig[x] : x \in DOMAIN sig }) = Len(e.fin2)

MinStatic(e) ==
  /\ Separated(e)
  /\ Wf(e.succ2, e.fin2, e.init2, e.nf2, e.fl2, e.L)
  /\ e.ns2 = Len(e.succ2)
  /\ e.ids = [ i \in 1..e.ns2 |-> i ]
  /\ \A i \in DOMAIN e.acc : e.acc[i][2] = e.acc[i][3]

(* --- remove_unreachable_states, alphabet, table, edges (C14) --- *)
RECURSIVE Reach(_, _, _)
Reach(succ, Seen, F) ==
  IF F = {} THEN Seen
  ELSE LET w == Len(succ[1])
           N == TLCEval(TLCEval({ succ[x][l] : x \in F, l \in 1..w }) \ Seen)
       IN Reach(succ, TLCEval(Seen \cup N), N)

\* index of the class of c in the list of intervals cls; 0: the complementary class
ClassOf(cls, c) ==
  IF \E i \in DOMAIN cls : cls[i][1] <= c /\ c <= cls[i][2]
  THEN CHOOSE i \in DOMAIN cls : cls[i][1] <= c /\ c <= cls[i][2]
  ELSE 0
RECURSIVE CoversFrom(_, _)
CoversFrom(cls, c) ==
  IF c > MaxChar THEN TRUE
  ELSE \E i \in DOMAIN cls : cls[i][1] <= c /\ c <= cls[i][2] /\ CoversFrom(cls, cls[i][2] + 1)
Column(e, l) == [ x \in DOMAIN e.succ |-> e.succ[x][l] ]
LetterIndex(e, c) == CHOOSE l \in DOMAIN e.L : e.L[l] = c

PruneStatic(e) ==
  LET n == e.ns
      R == Reach(e.succ, {e.init}, {e.init})
      pcls == TLCEval([ j \in DOMAIN e.picks |-> ClassOf(e.cls, e.picks[j]) ])
      classes == (DOMAIN e.cls) \cup (IF CoversFrom(e.cls, 0) THEN {} ELSE {0})
      lcls == TLCEval([ l \in DOMAIN e.L |-> ClassOf(e.cls, e.L[l]) ])
      col == TLCEval([ l \in DOMAIN e.L |-> Column(e, l) ]) IN
  /\ Wf(e.succ, e.fin, e.init, e.nf, e.fl, e.L)
  /\ Len(e.succ) = n
  /\ e.ids = [ i \in 1..n |-> i ]
  \* combined partition: disjoint classes, uniform in every state
  /\ \A i, j \in DOMAIN e.cls : i # j => ~ (e.cls[i][1] <= e.cls[j][2] /\ e.cls[j][1] <= e.cls[i][2])
  /\ \A l, m \in DOMAIN e.L : lcls[l] = lcls[m] => col[l] = col[m]
  \* one representative of each class
  /\ \A j \in DOMAIN e.picks : e.picks[j] \in 0..MaxChar
  /\ Range(pcls) = classes /\ Len(e.picks) = Cardinality(classes)
  \* the table agrees with next (tn = -1: the table was not asked for)
  /\ e.tn # -1 =>
       /\ e.tn = n /\ e.tk = Len(e.picks)
       /\ \A j \in DOMAIN e.picks :
            LET l == LetterIndex(e, e.picks[j]) IN \A x \in 1..n : e.tab[x][j] = e.succ[x][l]
  \* the edges of a state cover the alphabet, each class once, with the successor next gives
  /\ \A x \in 1..n :
       LET E == e.edges[x]
           I == { i \in DOMAIN E : E[i][1] >= 0 }
           C == { i \in DOMAIN E : E[i][1] = -1 } IN
       /\ I \cup C = DOMAIN E
       /\ Cardinality(C) <= 1
       /\ \A i, j \in I : i # j => ~ (E[i][1] <= E[j][2] /\ E[j][1] <= E[i][2])
       /\ \A l \in DOMAIN e.L :
            LET H == { i \in I : E[i][1] <= e.L[l] /\ e.L[l] <= E[i][2] } IN
            IF H # {} THEN \A i \in H : E[i][3] = e.succ[x][l]
            ELSE C # {} /\ \A i \in C : E[i][3] = e.succ[x][l]
  \* what a state says about itself
  /\ \A x \in 1..n :
       LET V == e.views[x] IN
       /\ V[1] = Cardinality({ i \in DOMAIN e.edges[x] : e.edges[x][i][1] >= 0 })
       /\ (V[3] = 1) <=> (V[2] # 0)
       /\ (V[3] = 1) <=> \E i \in DOMAIN e.edges[x] : e.edges[x][i][1] = -1
       /\ \A i \in DOMAIN V[4] : V[4][i][1] = V[4][i][2]
       /\ \A l \in DOMAIN V[5] : V[5][l] = 1 => V[2] = e.succ[x][l]
  \* pruning
  /\ Wf(e.succ2, e.fin2, e.init2, e.nf2, e.fl2, e.L)
  /\ Len(e.succ2) = Cardinality(R)
  /\ e.ns2 = Len(e.succ2)
  /\ e.ids2 = [ i \in 1..e.ns2 |-> i ]
  /\ \A i \in DOMAIN e.acc : e.acc[i][2] = e.acc[i][3]

\* the successor table of a larger automaton: nx[x][j] is next(x, picks[j])
TableOK(e) ==
  /\ e.tn = e.ns /\ e.tk = Len(e.picks)
  /\ Len(e.tab) = e.ns
  /\ \A x \in 1..e.ns : e.tab[x] = e.nx[x]

Accepts(e) ==
  CASE e.op = "min"   -> MinStatic(e)
    [] e.op = "prune" -> PruneStatic(e)
    [] e.op = "table" -> TableOK(e)
    [] OTHER          -> FALSE

IsMin(i) == Trace[i].op = "min"
IsDfa(i) == Trace[i].op \in {"min", "prune"}

InitCall  == k \in 1..Len(Trace) /\ mode = "call" /\ ok = TRUE /\ p = 0 /\ q = 0 /\ part = <<>>
InitProd  == /\ k \in { i \in 1..Len(Trace) : IsMin(i) } /\ mode = "prod" /\ ok = TRUE
             /\ p = Trace[k].init /\ q = Trace[k].init2 /\ part = <<>>
\* initial partition: final / non-final
InitMoore == /\ k \in { i \in 1..Len(Trace) : IsMin(i) /\ Len(Trace[i].fin2) <= MooreMax } /\ mode = "moore" /\ ok = TRUE /\ p = 0 /\ q = 0
             /\ LET f == Trace[k].fin2 IN part = [ x \in DOMAIN f |-> Min({ y \in DOMAIN f : f[y] = f[x] }) ]
InitPair  == /\ k \in { i \in 1..Len(Trace) : Trace[i].op = "prune" } /\ mode = "pair" /\ ok = TRUE /\ p = 0 /\ q = 0
             /\ part = <<{ <<Trace[k].init, Trace[k].init2>> }, { <<Trace[k].init, Trace[k].init2>> }>>
Init == InitCall \/ InitProd \/ InitMoore \/ InitPair

Return == /\ mode = "call" /\ mode' = "done" /\ ok' = Accepts(Trace[k])
          /\ UNCHANGED <<k, p, q, part>>
Step(l) == /\ mode = "prod"
           /\ p' = Trace[k].succ[p][l] /\ q' = Trace[k].succ2[q][l]
           /\ UNCHANGED <<k, mode, ok, part>>
\* one round of Moore's algorithm
Row(e, x) == e.succ2[x] \o e.xsucc[x]
Sig(e, x) == <<part[x], [ l \in DOMAIN Row(e, x) |-> part[Row(e, x)[l]] ]>>
Refined(e) == LET sg == [ x \in DOMAIN e.succ2 |-> Sig(e, x) ] IN
              [ x \in DOMAIN e.succ2 |-> Min({ y \in DOMAIN e.succ2 : sg[y] = sg[x] }) ]
Refine == /\ mode = "moore" /\ Refined(Trace[k]) # part
          /\ part' = Refined(Trace[k])
          /\ UNCHANGED <<k, mode, ok, p, q>>
\* a refinement by round: part = <<pairs so far, newest pairs>>
Spread == /\ mode = "pair" /\ part[2] # {}
          /\ LET e == Trace[k]
                 M == TLCEval({ <<e.succ[x[1]][l], e.succ2[x[2]][l]>> : x \in part[2], l \in DOMAIN e.L })
                 N == TLCEval(M \ part[1])
             IN part' = <<TLCEval(part[1] \cup N), N>>
          /\ UNCHANGED <<k, mode, ok, p, q>>
Next == \/ Return \/ Refine \/ Spread
        \/ mode = "prod" /\ \E l \in DOMAIN Trace[k].L : Step(l)
Spec == Init /\ [][Next]_vars

CallAccepted == ok
SameLanguage == mode = "prod" => Trace[k].fin[p] = Trace[k].fin2[q]
\* at the fixpoint no two distinct states are equivalent
NoTwins == mode = "moore" =>
             (Refined(Trace[k]) = part => \A x \in DOMAIN part : part[x] = x)
\* pruned automaton = reachable part of the original, up to renaming
Isomorphic == mode = "pair" =>
  LET e == Trace[k] IN
  \* one-to-one
  /\ Cardinality({ x[1] : x \in part[1] }) = Cardinality(part[1])
  /\ Cardinality({ x[2] : x \in part[1] }) = Cardinality(part[1])
  /\ \A x \in part[1] : e.fin[x[1]] = e.fin2[x[2]]
  /\ part[2] = {} => { x[2] : x \in part[1] } = DOMAIN e.succ2
=============================================================================
