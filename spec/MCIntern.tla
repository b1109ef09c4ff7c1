------------------------------ MODULE MCIntern -------------------------------
(***************************************************************************)
(* A hash-consing manager with a derivative cache as a state machine over  *)
(* all histories of a few calls: nodes get consecutive ids, every node is  *)
(* stored next to its complement (ids 2i-1, 2i), unions are sets of ids,   *)
(* derivatives are cached per (id, character).                             *)
(* Checked for every history: one id per node (HashConsed), complement is  *)
(* an involution without fixed points (Complements), the language of an id *)
(* is the one of the calls that made it (Meaning), the cache only ever     *)
(* holds left quotients (Cache), ids never change their meaning (Stable),  *)
(* and every call is allowed by the intern table of TraceIntern            *)
(* (TableAllows).                                                          *)
(***************************************************************************)
EXTENDS RegLan, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
Calls == IF Deep THEN 4 ELSE 3
Chars == {97, 98}

VARIABLES node, term, cache, table, n, last
\* node[i]: structure; term[i]: construction term of the language (ghost); cache: <<id, c>> -> id;
\* table: ghost intern table, call -> id; last: <<call, id>> of the last call (ghost)
vars == <<node, term, cache, table, n, last>>

Neg(i) == IF i % 2 = 1 THEN i + 1 ELSE i - 1
Ids(nd) == DOMAIN nd
\* ids of the positive node x after interning it: <<nodes, terms, id>>
Intern(nd, tm, x, t) ==
  IF \E i \in Ids(nd) : nd[i] = x THEN <<nd, tm, CHOOSE i \in Ids(nd) : nd[i] = x>>
  ELSE <<Append(Append(nd, x), <<"not", Len(nd) + 1>>), Append(Append(tm, t), <<"not", t>>), Len(nd) + 1>>
Start == Intern(<<>>, <<>>, <<"none">>, <<"none">>)      \* id 1: empty, id 2: everything
Members(nd, i) == IF nd[i][1] = "alt" THEN nd[i][2] ELSE IF i = 1 THEN {} ELSE {i}
Union(nd, tm, i, j) ==
  LET S == Members(nd, i) \cup Members(nd, j) IN
  IF S = {} THEN <<nd, tm, 1>>
  ELSE IF 2 \in S \/ \E x \in S : Neg(x) \in S THEN <<nd, tm, 2>>
  ELSE IF Cardinality(S) = 1 THEN <<nd, tm, CHOOSE x \in S : TRUE>>
  ELSE Intern(nd, tm, <<"alt", S>>, <<"alt", <<tm[i], tm[j]>>>>)
Concat(nd, tm, i, j) ==
  IF i = 1 \/ j = 1 THEN <<nd, tm, 1>>
  ELSE IF nd[i] = <<"eps">> THEN <<nd, tm, j>>
  ELSE IF nd[j] = <<"eps">> THEN <<nd, tm, i>>
  ELSE Intern(nd, tm, <<"cat", i, j>>, <<"cat", <<tm[i], tm[j]>>>>)

RECURSIVE NulId(_, _)
NulId(nd, i) ==
  LET x == nd[i] IN
  CASE x[1] = "none" -> FALSE [] x[1] = "eps" -> TRUE [] x[1] = "chr" -> FALSE
    [] x[1] = "not" -> ~ NulId(nd, x[2])
    [] x[1] = "alt" -> \E y \in x[2] : NulId(nd, y)
    [] x[1] = "cat" -> NulId(nd, x[2]) /\ NulId(nd, x[3])
\* derivative of id i: <<nodes, terms, id>> (uncached below the root)
RECURSIVE Der(_, _, _, _)
RECURSIVE DerSet(_, _, _, _)
Der(nd, tm, i, c) ==
  LET x == nd[i] IN
  CASE x[1] = "none" -> <<nd, tm, 1>>
    [] x[1] = "eps"  -> <<nd, tm, 1>>
    [] x[1] = "chr"  -> IF x[2] = c THEN Intern(nd, tm, <<"eps">>, <<"eps">>) ELSE <<nd, tm, 1>>
    [] x[1] = "not"  -> LET d == Der(nd, tm, x[2], c) IN <<d[1], d[2], Neg(d[3])>>
    [] x[1] = "alt"  -> DerSet(nd, tm, x[2], c)
    [] x[1] = "cat"  -> LET d == Der(nd, tm, x[2], c)
                            e == Concat(d[1], d[2], d[3], x[3]) IN
                        IF NulId(nd, x[2])
                        THEN LET f == Der(e[1], e[2], x[3], c) IN Union(f[1], f[2], e[3], f[3])
                        ELSE e
DerSet(nd, tm, S, c) ==
  IF S = {} THEN <<nd, tm, 1>>
  ELSE LET y == CHOOSE z \in S : \A u \in S : z <= u
           d == Der(nd, tm, y, c)
           r == DerSet(d[1], d[2], S \ {y}, c) IN Union(r[1], r[2], d[3], r[3])

Init == /\ node = Start[1] /\ term = Start[2] /\ cache = <<>> /\ table = <<>> /\ n = 0 /\ last = <<>>
With(f, key, h) == [ y \in (DOMAIN f) \cup {key} |-> IF y = key THEN h ELSE f[y] ]
Call(key, res) == /\ n < Calls /\ n' = n + 1
                  /\ node' = res[1] /\ term' = res[2]
                  /\ last' = <<key, res[3]>> /\ table' = With(table, key, res[3])
MkChar(c) == Call(<<"chr", c>>, Intern(node, term, <<"chr", c>>, <<"rng", c, c>>)) /\ UNCHANGED cache
MkEps == Call(<<"eps">>, Intern(node, term, <<"eps">>, <<"eps">>)) /\ UNCHANGED cache
MkNot(i) == Call(<<"not", i>>, <<node, term, Neg(i)>>) /\ UNCHANGED cache
MkAlt(i, j) == Call(<<"alt", i, j>>, Union(node, term, i, j)) /\ UNCHANGED cache
MkCat(i, j) == Call(<<"cat", i, j>>, Concat(node, term, i, j)) /\ UNCHANGED cache
Derive(i, c) ==
  LET hit == <<i, c>> \in DOMAIN cache
      res == IF hit THEN <<node, term, cache[<<i, c>>]>> ELSE Der(node, term, i, c) IN
  /\ n < Calls /\ n' = n + 1 /\ node' = res[1] /\ term' = res[2]
  /\ cache' = With(cache, <<i, c>>, res[3]) /\ last' = <<>> /\ UNCHANGED table
Next == \/ \E c \in Chars : MkChar(c)
        \/ MkEps
        \/ \E i \in DOMAIN node : MkNot(i) \/ (\E j \in DOMAIN node : MkAlt(i, j) \/ MkCat(i, j))
        \/ \E i \in DOMAIN node, c \in Chars : Derive(i, c)
Spec == Init /\ [][Next]_vars

Words == {<<>>, <<97>>, <<98>>, <<97, 98>>, <<97, 97>>}
HashConsed == \A i, j \in DOMAIN node : node[i] = node[j] => i = j
Complements == \A i \in DOMAIN node : Neg(i) \in DOMAIN node /\ Neg(i) # i /\ Neg(Neg(i)) = i
RECURSIVE Tree(_, _)
Tree(nd, i) ==      \* the construction term the structure of a node spells
  LET x == nd[i] IN
  CASE x[1] = "chr" -> <<"rng", x[2], x[2]>>
    [] x[1] = "not" -> <<"not", Tree(nd, x[2])>>
    [] x[1] = "alt" -> <<"alt", [ k \in 1..Cardinality(x[2]) |->
                          Tree(nd, CHOOSE y \in x[2] : Cardinality({ z \in x[2] : z < y }) = k - 1) ]>>
    [] x[1] = "cat" -> <<"cat", <<Tree(nd, x[2]), Tree(nd, x[3])>>>>
    [] OTHER -> x
Meaning == \A i \in DOMAIN node, w \in Words : Member(Tree(node, i), w) = Member(term[i], w)
Cache == \A k \in DOMAIN cache, w \in Words :
           Member(term[cache[k]], w) = Member(term[k[1]], <<k[2]>> \o w)
LastMeans ==
  last # <<>> =>
    LET key == last[1]
        t == CASE key[1] = "chr" -> <<"rng", key[2], key[2]>>
               [] key[1] = "eps" -> <<"eps">>
               [] key[1] = "not" -> <<"not", term[key[2]]>>
               [] key[1] = "alt" -> <<"alt", <<term[key[2]], term[key[3]]>>>>
               [] key[1] = "cat" -> <<"cat", <<term[key[2]], term[key[3]]>>>>
    IN \A w \in Words : Member(term[last[2]], w) = Member(t, w)
\* a call that was made before returns what it returned before
TableAllows == [][ \A k \in DOMAIN table : table'[k] = table[k] ]_vars
Stable == [][ \A i \in DOMAIN node : node'[i] = node[i] ]_vars
=============================================================================
