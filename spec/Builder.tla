------------------------------- MODULE Builder ------------------------------
(***************************************************************************)
(* What a caller of AutomatonBuilder has said so far, and what it means.   *)
(*   trans  set of <<s, a, b, t>>: "from s, characters a..b go to t"       *)
(*   dflt   set of <<s, t>>: the declared default successors               *)
(* M is the greatest character.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* explicit successors of s for character c
Explicit(trans, s, c) == { x[4] : x \in { y \in trans : y[1] = s /\ y[2] <= c /\ c <= y[3] } }
Default(dflt, s) == { x[2] : x \in { y \in dflt : y[1] = s } }
\* left end points of the pieces of the alphabet on which everything said about s is uniform
Cuts(trans, s, M) == {0} \cup { x[2] : x \in { y \in trans : y[1] = s } }
              \cup { x[3] + 1 : x \in { y \in trans : y[1] = s /\ y[3] < M } }
Conflict(trans, s, M)  == \E c \in Cuts(trans, s, M) : Cardinality(Explicit(trans, s, c)) > 1
Uncovered(trans, s, M) == \E c \in Cuts(trans, s, M) : Explicit(trans, s, c) = {}
Broken(trans, dflt, s, M) == Conflict(trans, s, M) \/ (Uncovered(trans, s, M) /\ Default(dflt, s) = {})
\* a default where nothing is left uncovered: the statement allows both answers
Redundant(trans, dflt, s, M) == Default(dflt, s) # {} /\ ~ Uncovered(trans, s, M)
Delta(trans, dflt, s, c) == LET E == Explicit(trans, s, c) IN
                IF E # {} THEN CHOOSE t \in E : TRUE ELSE CHOOSE t \in Default(dflt, s) : TRUE
=============================================================================
