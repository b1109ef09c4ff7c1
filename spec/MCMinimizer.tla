----------------------------- MODULE MCMinimizer -----------------------------
(***************************************************************************)
(* The minimizer at the level of its data: blocks with ids (block i keeps  *)
(* its id for the part inside of the splitter, the other part gets the     *)
(* next id), a splitter (B,c) listed only while some state enters B by c,  *)
(* a flag "active" per listed splitter, the half that becomes active       *)
(* chosen by the number of PREDECESSORS (not of states), candidate blocks  *)
(* collected before refining, the splitter's own block refined last, and   *)
(* an early stop when every block is a singleton.  MCHopcroft is the       *)
(* textbook algorithm; this one is the crate's, over ALL automata of a few *)
(* states and letters, with every order of splitters and candidates.       *)
(*                                                                         *)
(*   Listed:  exactly the splitters with predecessors are listed, so that  *)
(*            dropping the others loses nothing                            *)
(*   Fine:    equivalent states are never separated                        *)
(*   Covered: between two splitters, whatever still has to be split is     *)
(*            split by an active one                                       *)
(*   Result:  when the machine stops, blocks are the equivalence classes   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
Shapes == IF Deep THEN { <<3, 2>>, <<4, 1>>, <<2, 3>>, <<5, 1>>, <<3, 3>> } ELSE { <<3, 1>>, <<2, 2>>, <<4, 1>>, <<1, 2>> }

VARIABLES n, m, delta, fin, id, blocks, listed, active, sp, cand
vars == <<n, m, delta, fin, id, blocks, listed, active, sp, cand>>
S == 1..n
A == 1..m
NoSp == <<0, 0>>

PredOf(d, f, b, c) == { x \in DOMAIN d : f[d[x][c]] = b }
Card(X) == Cardinality(X)

\* splitters after block i was split into i and j; newId is the map of states to blocks after it
NewListed(d, newId, old, i, j) ==
  { s \in old : s[1] # i }
    \cup { <<b, s[2]>> : b \in {i, j}, s \in { t \in old : t[1] = i } }
KeepListed(d, newId, X) == { s \in X : PredOf(d, newId, s[1], s[2]) # {} }
NewActive(d, newId, oldListed, oldActive, i, j) ==
  { s \in oldActive : s[1] # i }
    \cup { s \in UNION { LET c == s[2]
                             p1 == Card(PredOf(d, newId, i, c))
                             p2 == Card(PredOf(d, newId, j, c)) IN
                         IF s \in oldActive THEN { <<i, c>>, <<j, c>> }
                         ELSE IF p1 <= p2 THEN { <<i, c>> } ELSE { <<j, c>> }
                         : s \in { t \in oldListed : t[1] = i } } : PredOf(d, newId, s[1], s[2]) # {} }

Init == \E sh \in Shapes :
  /\ n = sh[1] /\ m = sh[2]
  /\ delta \in [ 1..sh[1] -> [ 1..sh[2] -> 1..sh[1] ] ]
  /\ fin \in SUBSET (1..sh[1])
  /\ sp = NoSp /\ cand = {}
  /\ LET one == { <<1, c>> : c \in 1..sh[2] } IN
     IF fin = {} \/ fin = 1..sh[1]
     THEN id = [ x \in 1..sh[1] |-> 1 ] /\ blocks = 1 /\ listed = one /\ active = {}
     ELSE /\ id = [ x \in 1..sh[1] |-> IF x \in fin THEN 1 ELSE 2 ] /\ blocks = 2
          /\ listed = KeepListed(delta, id, NewListed(delta, id, one, 1, 2))
          /\ active = NewActive(delta, id, one, {}, 1, 2)

Block(b) == { x \in S : id[x] = b }
Pick == /\ sp = NoSp /\ blocks < n
        /\ \E s \in active :
             /\ active' = active \ {s}
             /\ sp' = s
             /\ cand' = { b \in { id[x] : x \in PredOf(delta, id, s[1], s[2]) } : Card(Block(b)) > 1 }
        /\ UNCHANGED <<n, m, delta, fin, id, blocks, listed>>
Cut(b) ==
  LET out == { x \in Block(b) : id[delta[x][sp[2]]] # sp[1] } IN
  IF out = {} THEN UNCHANGED <<id, blocks, listed, active>>
  ELSE LET j == blocks + 1
           f == [ x \in S |-> IF x \in out THEN j ELSE id[x] ] IN
       /\ id' = f /\ blocks' = j
       /\ listed' = KeepListed(delta, f, NewListed(delta, f, listed, b, j))
       /\ active' = NewActive(delta, f, listed, active, b, j)
Refine == /\ sp # NoSp /\ cand # {}
          /\ \E b \in cand : /\ (b = sp[1]) => cand = {b}
                             /\ Cut(b) /\ cand' = cand \ {b}
          /\ UNCHANGED <<n, m, delta, fin, sp>>
Finish == sp # NoSp /\ cand = {} /\ sp' = NoSp /\ UNCHANGED <<n, m, delta, fin, id, blocks, listed, active, cand>>
Next == Pick \/ Refine \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Stopped == sp = NoSp /\ (active = {} \/ blocks = n)

RECURSIVE Pairs(_, _)
Pairs(Seen, F) ==
  IF F = {} THEN Seen
  ELSE LET M == { <<delta[x[1]][c], delta[x[2]][c]>> : x \in F, c \in A } \ Seen IN Pairs(Seen \cup M, M)
Equivalent(x, y) == \A z \in Pairs({ <<x, y>> }, { <<x, y>> }) : (z[1] \in fin) = (z[2] \in fin)

NonEmptyBlocks == { id[x] : x \in S } = 1..blocks
Listed == listed = { s \in (1..blocks) \X A : PredOf(delta, id, s[1], s[2]) # {} }
ActiveListed == active \subseteq listed
Fine == \A x, y \in S : (id[x] # id[y]) => ~ Equivalent(x, y)
Covered == (sp = NoSp /\ blocks < n) =>
  \A b \in 1..blocks, c \in A, d \in 1..blocks :
    LET P == PredOf(delta, id, b, c) IN
    (Block(d) \cap P # {} /\ Block(d) \ P # {}) =>
       \E s \in active : LET Q == PredOf(delta, id, s[1], s[2]) IN Block(d) \cap Q # {} /\ Block(d) \ Q # {}
Result == Stopped => \A x, y \in S : (id[x] = id[y]) = Equivalent(x, y)
Ends == <>Stopped
=============================================================================
