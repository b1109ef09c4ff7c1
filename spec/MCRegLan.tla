------------------------------ MODULE MCRegLan ------------------------------
(***************************************************************************)
(* RegLan checked against itself.  For every construction term of a small  *)
(* universe and every word up to a length over four letters, the residual  *)
(* machine (Norm, D, Nul) accepts exactly the words of the denotation      *)
(* (Spans).  The words are read one letter at a time, so the check is the  *)
(* refinement of "membership" by the machine.                              *)
(*                                                                         *)
(* UniformCells: two characters of one cell of the alphabet have the same  *)
(* derivative, which is why one letter per cell represents the alphabet.   *)
(* LoopsAsSums: the loop over [i,j] is the union of the powers.            *)
(***************************************************************************)
EXTENDS RegLan, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
MaxLen == IF Deep THEN 4 ELSE 3

\* letters of the words; 98 lies inside of the range 97..99
Sigma == {0, 97, 98, 100}
Atoms == { <<"none">>, <<"eps">>, <<"all">>, <<"any">>, <<"rng", 97, 97>>, <<"rng", 97, 99>>,
           <<"rng", 99, 97>>, <<"str", <<97, 98>>>>, <<"str", <<>>>> }
Unary(T) == UNION { { <<"not", t>>, <<"star", t>>, <<"plus", t>>, <<"opt", t>>, <<"pow", t, 0>>,
                      <<"pow", t, 2>>, <<"loop", t, 0, 2>>, <<"loop", t, 1, 3>>, <<"loop", t, 2, Inf>>,
                      <<"loop", t, 2, 1>>, <<"loop", t, 0, 0>> } : t \in T }
Binary(S, T) == UNION { { <<"cat", <<x, y>>>>, <<"alt", <<x, y>>>>, <<"and", <<x, y>>>>,
                          <<"diff", x, <<y>>>> } : x \in S, y \in T }
One == Atoms \cup Unary(Atoms) \cup Binary(Atoms, Atoms)
Small == { <<"eps">>, <<"any">>, <<"rng", 97, 99>>, <<"str", <<97, 98>>>> }
Extra == { <<"cat", <<>>>>, <<"alt", <<>>>>, <<"and", <<>>>>,
           <<"diff", <<"all">>, <<<<"eps">>, <<"any">>>>>>,
           <<"diff", <<"star", <<"rng", 97, 99>>>>, <<<<"str", <<97>>>>, <<"not", <<"all">>>>>>>>,
           <<"cat", <<<<"opt", <<"rng", 97, 97>>>>, <<"any">>, <<"opt", <<"str", <<98, 98>>>>>>>>>>,
           <<"and", <<<<"cat", <<<<"all">>, <<"str", <<97>>>>>>>>, <<"not", <<"str", <<97, 97>>>>>>,
                      <<"loop", <<"any">>, 1, 3>>>>>> }
Two == IF Deep THEN Unary(One) \cup Binary(One, Small) \cup Binary(Small, One) ELSE Unary(Binary(Small, Small))
Terms == One \cup Two \cup Extra

VARIABLES t, w, r
vars == <<t, w, r>>
Init == t \in Terms /\ w = <<>> /\ r = Norm(t)
Read(c) == /\ Len(w) < MaxLen
           /\ w' = Append(w, c) /\ r' = D(c, r) /\ UNCHANGED t
Next == \E c \in Sigma : Read(c)
Spec == Init /\ [][Next]_vars

Refines == Nul(r) = Member(t, w)
Cell(c) == CHOOSE l \in Letters(r) : l <= c /\ \A m \in Letters(r) : m <= c => m <= l
UniformCells == \A c \in Sigma \cup {96, 99, 101, MaxChar} : D(c, r) = D(Cell(c), r)
\* Derivative classes computed from the parts only (the way an implementation caches them): a range
\* gives itself and the rest; a loop and a complement have the classes of their body; union and
\* intersection take the common refinement; a concatenation needs the second part only if the first
\* accepts the empty word.  Characters of one class have the same derivative.
Probe == {0, 96, 97, 98, 99, 100, 101, MaxChar}
Meet(P, Q) == { X \cap Y : X \in P, Y \in Q } \ {{}}
RECURSIVE MeetAll(_)
MeetAll(F) == IF F = {} THEN {Probe} ELSE LET P == CHOOSE Q \in F : TRUE IN Meet(P, MeetAll(F \ {P}))
RECURSIVE Cls(_)
Cls(x) ==
  CASE x[1] \in {"0", "1"} -> {Probe}
    [] x[1] = "rng"  -> LET I == { c \in Probe : x[2] <= c /\ c <= x[3] } IN { I, Probe \ I } \ {{}}
    [] x[1] = "cat"  -> IF Nul(x[2]) THEN Meet(Cls(x[2]), Cls(x[3])) ELSE Cls(x[2])
    [] x[1] \in {"alt", "and"} -> MeetAll({ Cls(y) : y \in x[2] })
    [] x[1] \in {"not", "loop"} -> Cls(x[2])
UniformClasses == \A C \in Cls(r) : \A c, d \in C : D(c, r) = D(d, r)
\* never finer than the cells between all bounds of the expression
CoarserThanCells == \A c, d \in Probe : Cell(c) = Cell(d) => \E C \in Cls(r) : c \in C /\ d \in C
LoopsAsSums ==
  (t[1] = "loop" /\ t[4] # Inf) =>
     (Member(t, w) = \E k \in t[3]..t[4] : Member(<<"pow", t[2], k>>, w))
\* a member makes the exhausted set of residuals contain a nullable one
EmptyDecided == Member(t, w) => NonEmpty(Norm(t), Letters(Norm(t)))
\* the search that stops early gives the same answer as the exhausted set
EarlyStop == w = <<>> =>
   LET Ls == Letters(r) IN NonEmpty(r, Ls) = \E x \in Reach({r}, {r}, Ls) : Nul(x)
=============================================================================
