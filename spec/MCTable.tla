------------------------------- MODULE MCTable -------------------------------
(***************************************************************************)
(* The compact transition table behind compile_successors: rows of states  *)
(* are stored one after the other in two shared arrays (value, check) at   *)
(* an offset base[s]; a cell owned by another state means "use the default *)
(* successor".  All patterns of explicit entries of N states over K        *)
(* letters, all orders of storing.                                         *)
(*                                                                         *)
(* Two placement policies: "first" searches the least offset without a     *)
(* conflict and doubles the arrays when the row would not fit (the code);  *)
(* "any" takes every offset without a conflict (so the checked facts do    *)
(* not depend on the policy).  Values are symbolic: the cell of (s,c)      *)
(* holds <<"to",s,c>>, which covers every choice of successors.                 *)
(*                                                                         *)
(* Stored: at every point eval gives the row of each stored state;         *)
(* Owned: a cell belongs to at most the state that stored it (no entry is  *)
(* overwritten); InBounds: no index leaves the arrays, also after the      *)
(* final truncation; Doubling: one doubling always suffices.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
Shapes == IF Deep THEN { <<4, 2>>, <<3, 3>>, <<2, 5>>, <<5, 1>>, <<4, 3>>, <<3, 4>> } ELSE { <<3, 2>>, <<2, 3>>, <<4, 1>>, <<1, 4>> }
Free == 0                \* owner of a cell nobody stored (states are 1..n)
Unset == <<"default", 0>> \* and its value

VARIABLES n, k, rows, policy, base, check, value, todo, built
vars == <<n, k, rows, policy, base, check, value, todo, built>>

S == 1..n
L == 0..(k - 1)
Init == \E sh \in Shapes :
  /\ n = sh[1] /\ k = sh[2]
  /\ rows \in [ 1..sh[1] -> SUBSET (0..(sh[2] - 1)) ]
  /\ policy \in IF sh[1] * sh[2] > 10 THEN { "first" } ELSE { "first", "any" }
  /\ base = [ s \in 1..sh[1] |-> 0 ]
  /\ check = [ i \in 0..(sh[2] - 1) |-> Free ]
  /\ value = [ i \in 0..(sh[2] - 1) |-> Unset ]
  /\ todo = 1..sh[1] /\ built = FALSE

Size(f) == Cardinality(DOMAIN f)
Grow(f, m) == [ i \in 0..(m - 1) |-> IF i \in DOMAIN f THEN f[i] ELSE Free ]
Conflict(f, b, R) == \E c \in R : f[b + c] # Free

\* the search of the code: returns <<offset, check array grown as needed>>
RECURSIVE Search(_, _, _)
Search(f, b, R) ==
  IF ~ Conflict(f, b, R) THEN <<b, f>>
  ELSE LET g == IF b + 1 + k > Size(f) THEN Grow(f, 2 * Size(f)) ELSE f IN Search(g, b + 1, R)

Put(s, b, f) ==
  /\ base' = [ base EXCEPT ![s] = b ]
  /\ check' = [ i \in DOMAIN f |-> IF i - b \in rows[s] THEN s ELSE f[i] ]
  /\ value' = [ i \in DOMAIN f |-> IF i - b \in rows[s] THEN <<"to", s, i - b>> 
                                       ELSE IF i \in DOMAIN value THEN value[i] ELSE Unset ]
  /\ todo' = todo \ {s}
  /\ UNCHANGED <<n, k, rows, policy, built>>
Store(s) ==
  \/ policy = "first" /\ LET q == Search(check, 0, rows[s]) IN Put(s, q[1], q[2])
  \/ policy = "any" /\ \E b \in (0..k) \cup { Size(check) } :
       LET m == IF b + k > Size(check) THEN b + k ELSE Size(check)
           f == Grow(check, m) IN ~ Conflict(f, b, rows[s]) /\ Put(s, b, f)
MaxBase == CHOOSE b \in { base[s] : s \in S } : \A s \in S : base[s] <= b
Build == /\ todo = {} /\ ~ built /\ built' = TRUE
         /\ check' = [ i \in 0..(MaxBase + k - 1) |-> check[i] ]
         /\ value' = [ i \in 0..(MaxBase + k - 1) |-> value[i] ]
         /\ UNCHANGED <<n, k, rows, policy, base, todo>>
Next == (\E s \in todo : Store(s)) \/ Build
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Eval(s, c) == IF check[base[s] + c] = s THEN value[base[s] + c] ELSE <<"default", s>>
Row(s, c) == IF c \in rows[s] THEN <<"to", s, c>> ELSE <<"default", s>>
InBounds == /\ DOMAIN check = DOMAIN value
            /\ \A s \in S \ todo, c \in L : base[s] + c \in DOMAIN check
Stored == \A s \in S \ todo, c \in L : Eval(s, c) = Row(s, c)
Owned == \A i \in DOMAIN check :
           IF check[i] = Free THEN value[i] = Unset ELSE value[i] = <<"to", check[i], i - base[check[i]]>>
Doubling == policy = "first" => \A m \in 1..Size(check) : (m + k <= Size(check)) => m + 1 + k <= 2 * Size(check)
\* a state whose row is not stored yet already answers the default: nothing is stored under its name
Pending == \A s \in todo, i \in DOMAIN check : check[i] # s
Done == <>built
=============================================================================
