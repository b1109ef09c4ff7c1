----------------------------- MODULE MCHopcroft -----------------------------
(***************************************************************************)
(* Minimization by refinement with splitters (Hopcroft), the algorithm     *)
(* behind minimize, as a state machine over ALL automata with N states     *)
(* (reachable or not) and L letters; the choice of the next splitter and   *)
(* of the half that is added are nondeterministic wherever the algorithm   *)
(* leaves them open.                                                       *)
(* Checked: blocks are never coarser than the residual-language classes    *)
(* (Sound); every reason to refine further is covered by an active         *)
(* splitter (Covered, the invariant that makes it safe to drop splitters); *)
(* when no splitter is left, blocks are exactly the classes (Minimal).     *)
(* Moore's fixpoint, the oracle of TraceDfa, is compared with equality of  *)
(* the languages (Same), so the oracle itself is checked.                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
Shapes == IF Deep THEN { <<3, 2>>, <<4, 1>>, <<2, 3>>, <<5, 1>> } ELSE { <<3, 1>>, <<2, 2>>, <<4, 1>> }

VARIABLES n, m, delta, fin, blocks, work
vars == <<n, m, delta, fin, blocks, work>>
S == 1..n
A == 1..m

Pred(d, B, c) == { x \in DOMAIN d : d[x][c] \in B }
Init == \E sh \in Shapes :
  /\ n = sh[1] /\ m = sh[2]
  /\ delta \in [ 1..sh[1] -> [ 1..sh[2] -> 1..sh[1] ] ]
  /\ fin \in SUBSET (1..sh[1])
  /\ blocks = { fin, (1..sh[1]) \ fin } \ {{}}
  /\ \E half \in { fin, (1..sh[1]) \ fin } : work = { <<half, c>> : c \in 1..sh[2] }

\* split all blocks by the predecessors of the splitter <<B, c>>; the choice function h says which
\* half is added for a block whose splitters are not active
Split(D, P) == { D \cap P, D \ P } \ {{}}
Refine ==
  \E sp \in work :
    LET P == Pred(delta, sp[1], sp[2])
        Cut == { D \in blocks : Cardinality(Split(D, P)) = 2 }
        rest == work \ {sp}
        Small(D) == { h \in Split(D, P) : 2 * Cardinality(h) <= Cardinality(D) } IN
    \E h \in [ Cut -> UNION { Split(D, P) : D \in Cut } ] :
      /\ \A D \in Cut : h[D] \in Small(D)
      /\ blocks' = (blocks \ Cut) \cup UNION { Split(D, P) : D \in Cut }
      /\ work' = { x \in rest : x[1] \notin Cut }
                   \cup UNION { { <<H, x[2]>> : H \in Split(x[1], P) } : x \in { y \in rest : y[1] \in Cut } }
                   \cup { <<h[D], a>> : D \in Cut, a \in A }
      /\ UNCHANGED <<n, m, delta, fin>>
Next == Refine
Spec == Init /\ [][Next]_vars

\* equality of the languages of two states: no reachable pair disagrees
RECURSIVE Pairs(_, _)
Pairs(Seen, F) ==
  IF F = {} THEN Seen
  ELSE LET M == { <<delta[x[1]][c], delta[x[2]][c]>> : x \in F, c \in A } \ Seen IN Pairs(Seen \cup M, M)
Equivalent(x, y) == \A z \in Pairs({ <<x, y>> }, { <<x, y>> }) : (z[1] \in fin) = (z[2] \in fin)
BlockOf(x) == CHOOSE B \in blocks : x \in B

IsPartition == UNION blocks = S /\ \A B, C \in blocks : B # {} /\ (B = C \/ B \cap C = {})
Sound == \A x, y \in S : Equivalent(x, y) => BlockOf(x) = BlockOf(y)
Covered == \A B \in blocks, c \in A, D \in blocks :
  LET P == Pred(delta, B, c) IN
  (D \cap P # {} /\ D \ P # {}) =>
     \* some active splitter separates two members of D
     \E sp \in work : LET Q == Pred(delta, sp[1], sp[2]) IN D \cap Q # {} /\ D \ Q # {}
Minimal == work = {} => \A x, y \in S : (BlockOf(x) = BlockOf(y)) => Equivalent(x, y)
\* Moore's rounds
RECURSIVE Moore(_)
Moore(part) ==
  LET sig(x) == <<part[x], [ c \in A |-> part[delta[x][c]] ]>>
      np == [ x \in S |-> CHOOSE y \in S : sig(y) = sig(x) /\ \A z \in S : sig(z) = sig(x) => y <= z ]
  IN IF np = part THEN part ELSE Moore(np)
Same == work = {} =>
  LET p0 == [ x \in S |-> CHOOSE y \in S : (y \in fin) = (x \in fin) /\ \A z \in S : ((z \in fin) = (x \in fin)) => y <= z ]
      mo == Moore(p0) IN \A x, y \in S : (mo[x] = mo[y]) = Equivalent(x, y)
\* every run terminates: a splitter is taken at most n * m * (number of halvings) times; TLC shows
\* termination by the absence of a cycle (the measure below strictly decreases lexicographically)
Measure == <<Cardinality(blocks), Cardinality(work)>>
Decreases == [][ \/ Cardinality(blocks') > Cardinality(blocks)
                 \/ (blocks' = blocks /\ Cardinality(work') < Cardinality(work)) ]_vars
=============================================================================
