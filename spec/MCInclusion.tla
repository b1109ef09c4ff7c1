----------------------------- MODULE MCInclusion -----------------------------
(***************************************************************************)
(* The incomplete inclusion test that lets a union drop an operand and an  *)
(* intersection keep only the smaller one (C16): Sub(r, s) = TRUE must     *)
(* imply that every word of r is a word of s.                              *)
(*                                                                         *)
(* Sub transcribes the rules: equal; empty; epsilon; both complements      *)
(* (swapped); a member of a union; a member of an intersection; all        *)
(* members of a union / intersection; and, for concatenations, matching    *)
(* the left sequence against the right one, whose items are grouped into   *)
(* rigid blocks (ranges) and flexible blocks (everything else).  Rigid     *)
(* blocks at the two ends must match the ends; the others are searched     *)
(* leftmost-first, then rightmost-first; what is left between them must    *)
(* face a flexible block that is exactly the full language.                *)
(*                                                                         *)
(* The state is a pair for which Sub answers TRUE plus the residuals of    *)
(* both sides after one word; reading letters explores all words.          *)
(*   Sound:    whenever the left residual accepts, so does the right one.  *)
(*   Complete: not required of the code (it may answer "don't know");      *)
(*             Wide counts that the two searches are not redundant.        *)
(* WhyEnds documents why the two ends are anchored: without anchoring      *)
(* (operator Loose) there are positive pairs that are not included.        *)
(***************************************************************************)
EXTENDS RegLan, IOUtils

Deep == IOEnv.TIER = "thorough"
A == 97
B == 98
Z == 122
Letters4 == { 0, A, B, Z }
Ra == <<"rng", A, A>>
Rb == <<"rng", B, B>>
Rab == <<"rng", A, B>>
Dot == <<"rng", 0, MaxChar>>
Full == <<"loop", Dot, 0, Inf>>
As == <<"loop", Ra, 0, Inf>>
Dots == <<"loop", Dot, 2, 3>>

(* trees: <<"cat", seq of items>>, <<"not", t>>, <<"or", set>>, <<"both", set>>, items themselves *)
Items == { Ra, Rab, Dot, Full } \cup (IF Deep THEN { Rb, As } ELSE {})
LeftItems == Items \cup { Rb, As, Dots }
Seqs(X, k) == UNION { [ 1..j -> X ] : j \in 0..k }
Cat(q) == <<"cat", q>>

IsRange(x) == x[1] = "rng"
Covers(p, x) == IsRange(x) /\ p[2] <= x[2] /\ x[3] <= p[3]

(* blocks of v as records [from, to, rigid], 1-based, inclusive *)
RECURSIVE Blocks(_, _)
Blocks(v, i) ==
  IF i > Len(v) THEN <<>>
  ELSE LET same(j) == \A m \in i..j : IsRange(v[m]) = IsRange(v[i])
           e == CHOOSE j \in i..Len(v) : same(j) /\ (j = Len(v) \/ ~ same(j + 1))
       IN << [ from |-> i, to |-> e, rigid |-> IsRange(v[i]) ] >> \o Blocks(v, e + 1)

MatchAt(v, p, u, i) == \A m \in 0..(p.to - p.from) : i + m <= Len(u) /\ Covers(v[p.from + m], u[i + m])
Size(p) == p.to - p.from + 1

(* places: function block index -> first position in u, searched in the given direction, or <<"no">> *)
No == <<>>
RECURSIVE FromLeft(_, _, _, _, _)
FromLeft(v, bs, u, x, i) ==
  IF x > Len(bs) THEN << <<"end">> >>
  ELSE IF ~ bs[x].rigid
       THEN LET t == FromLeft(v, bs, u, x + 1, i) IN IF t = No THEN No ELSE << <<"flex">> >> \o t
  ELSE LET cand == { j \in i..(Len(u) - Size(bs[x]) + 1) : MatchAt(v, bs[x], u, j) } IN
       IF cand = {} THEN No
       ELSE LET j == CHOOSE y \in cand : \A z \in cand : y <= z
                t == FromLeft(v, bs, u, x + 1, j + Size(bs[x])) IN
            IF t = No THEN No ELSE << <<"at", j, j + Size(bs[x]) - 1>> >> \o t
\* i: last position still free
RECURSIVE FromRight(_, _, _, _, _)
FromRight(v, bs, u, x, i) ==
  IF x = 0 THEN << <<"end">> >>
  ELSE IF ~ bs[x].rigid
       THEN LET t == FromRight(v, bs, u, x - 1, i) IN IF t = No THEN No ELSE Append(t, <<"flex">>)
  ELSE LET cand == { j \in 1..(i - Size(bs[x]) + 1) : MatchAt(v, bs[x], u, j) } IN
       IF cand = {} THEN No
       ELSE LET j == CHOOSE y \in cand : \A z \in cand : y >= z
                t == FromRight(v, bs, u, x - 1, j - 1) IN
            IF t = No THEN No ELSE Append(t, <<"at", j, j + Size(bs[x]) - 1>>)

\* the text that a flexible block faces does not matter: the block must be the full language alone
FlexOk(v, bs, u) ==
  IF bs = <<>> THEN u = <<>>
  ELSE \A x \in DOMAIN bs : ~ bs[x].rigid => (bs[x].from = bs[x].to /\ v[bs[x].from] = Full)

Shift(bs, k) == [ x \in DOMAIN bs |-> [ bs[x] EXCEPT !.from = @ - k, !.to = @ - k ] ]
Middle(v, bs, u) ==
  /\ FlexOk(v, bs, u)
  /\ FromLeft(v, bs, u, 1, 1) # No \/ FromRight(v, bs, u, Len(bs), Len(u)) # No

ConcatIn(u, v) ==
  LET b == Blocks(v, 1)
      pre == b # <<>> /\ b[1].rigid
      k == IF pre THEN Size(b[1]) ELSE 0 IN
  IF pre /\ ~ (Len(u) >= k /\ MatchAt(v, b[1], u, 1)) THEN FALSE
  ELSE LET u1 == SubSeq(u, k + 1, Len(u))
           v1 == SubSeq(v, k + 1, Len(v))
           b1 == Shift(IF pre THEN Tail(b) ELSE b, k)
           suf == b1 # <<>> /\ b1[Len(b1)].rigid
           q == IF suf THEN Size(b1[Len(b1)]) ELSE 0 IN
       IF suf /\ ~ (Len(u1) >= q /\ MatchAt(v1, b1[Len(b1)], u1, Len(u1) - q + 1)) THEN FALSE
       ELSE Middle(SubSeq(v1, 1, Len(v1) - q), IF suf THEN SubSeq(b1, 1, Len(b1) - 1) ELSE b1,
                   SubSeq(u1, 1, Len(u1) - q))
\* the same without anchoring the ends
Loose(u, v) == Middle(v, Blocks(v, 1), u)

Simple(t) == t[1] = "cat"
RECURSIVE Res(_)
RECURSIVE ResSeq(_)
ResSeq(q) == IF q = <<>> THEN Eps ELSE RCat(Head(q), ResSeq(Tail(q)))
Res(t) == CASE t[1] = "cat" -> ResSeq(t[2])
            [] t[1] = "not" -> RNot(Res(t[2]))
            [] t[1] = "or" -> RAltSet({ Res(x) : x \in t[2] })
            [] t[1] = "both" -> RAndSet({ Res(x) : x \in t[2] })
            [] t[1] = "void" -> None

RECURSIVE Sub(_, _)
Sub(r, s) ==
  IF r = s THEN TRUE
  ELSE IF r[1] = "void" THEN TRUE
  ELSE IF s[1] = "void" THEN FALSE
  ELSE IF r = Cat(<<>>) THEN Nul(Res(s))
  ELSE IF s = Cat(<<>>) THEN FALSE
  ELSE IF r[1] = "not" /\ s[1] = "not" THEN Sub(s[2], r[2])
  ELSE IF s[1] = "or" THEN Simple(r) /\ \E x \in s[2] : Sub(r, x)
  ELSE IF r[1] = "both" THEN Simple(s) /\ \E x \in r[2] : Sub(x, s)
  ELSE IF r[1] = "or" THEN Simple(s) /\ \A x \in r[2] : Sub(x, s)
  ELSE IF s[1] = "both" THEN Simple(r) /\ \A x \in s[2] : Sub(r, x)
  ELSE IF r[1] = "not" \/ s[1] = "not"
       \* a complement is one opaque item of a concatenation: no range, not the full language
       THEN FALSE \/ (s[1] = "cat" /\ s[2] = <<Full>>)
  ELSE ConcatIn(r[2], s[2])

Small == { Cat(q) : q \in Seqs({ Ra, Dot, Full }, 2) }
Sets2(X) == { s \in SUBSET X : Cardinality(s) = 2 }
Base3 == { Cat(<<>>), Cat(<<Ra>>), Cat(<<Dot>>), Cat(<<Full>>), Cat(<<Ra, Full>>), Cat(<<Full, Ra>>) }
Bool == { <<"void">> } \cup { <<"not", x>> : x \in Small }
          \cup { <<"or", s>> : s \in Sets2(Base3) } \cup { <<"both", s>> : s \in Sets2(Base3) }
Nested == { <<"not", <<"or", s>>>> : s \in Sets2(Base3) } \cup { <<"not", <<"both", s>>>> : s \in Sets2(Base3) }
Trees == Small \cup Bool \cup (IF Deep THEN Nested ELSE {})

MaxL == 3
VARIABLES left, right, x, y, kind
vars == <<left, right, x, y, kind>>
\* first the left side, then a right side for which the answer is positive, then letters
Init == /\ \/ \E u \in Seqs(LeftItems, MaxL) : left = Cat(u) /\ kind = "left-concat"
           \/ left \in Trees /\ kind = "left-tree"
        /\ right = <<"void">> /\ x = None /\ y = None
Choose(r, k) == right' = r /\ kind' = k /\ x' = Res(left) /\ y' = Res(r) /\ UNCHANGED left
Pick ==
  \/ /\ kind = "left-concat"
     /\ \E v \in Seqs(Items, MaxL + (IF Deep THEN 1 ELSE 0)) :
          v # <<>> /\ ConcatIn(left[2], v) /\ Choose(Cat(v), "concat")
  \/ /\ kind = "left-tree"
     /\ \E r \in Trees : Sub(left, r) /\ Choose(r, "tree")
Read(c) == /\ kind \in { "concat", "tree" }
           /\ x' = D(c, x) /\ y' = D(c, y) /\ UNCHANGED <<left, right, kind>>
Next == Pick \/ \E c \in Letters4 : Read(c)
Spec == Init /\ [][Next]_vars

Sound == Nul(x) => Nul(y)
\* a dropped operand of a union does not change it, and the kept one of an intersection is enough
Merged == Sound => (Nul(RAltSet({x, y})) = Nul(y) /\ Nul(RAndSet({x, y})) = Nul(x))
\* both search directions are only used for positive answers the other one may give as well: on
\* patterns whose flexible blocks are all full, they agree
Agree ==
  (kind = "concat" /\ x = Res(left)) =>
     LET v == right[2] bs == Blocks(v, 1) u == left[2] IN
     (\A b \in DOMAIN bs : ~ bs[b].rigid => v[bs[b].from] = Full) =>
        (FromLeft(v, bs, u, 1, 1) # No) = (FromRight(v, bs, u, Len(bs), Len(u)) # No)
\* anchoring matters: {b a} would be "included" in {a}
ASSUME WhyEnds ==
  /\ Loose(<<Rb, Ra>>, <<Ra>>) /\ ~ ConcatIn(<<Rb, Ra>>, <<Ra>>)
  /\ ~ MemberR(ResSeq(<<Ra>>), <<B, A>>)
=============================================================================
