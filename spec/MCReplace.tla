----------------------------- MODULE MCReplace ------------------------------
(***************************************************************************)
(* The search for a match as the crate does it (one derivative per         *)
(* character, stop at the first nullable one, give up at the empty         *)
(* language), as a state machine: it refines FindMatch; FindMatch agrees   *)
(* with the denotation; and the replacements agree.                        *)
(***************************************************************************)
EXTENDS Replace, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
Sigma == {97, 98}
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE LET W == Words(n - 1) IN W \cup { Append(w, c) : w \in { x \in W : Len(x) = n - 1 }, c \in Sigma }
Subjects == Words(IF Deep THEN 6 ELSE 4)
A == <<"rng", 97, 97>>
B == <<"rng", 98, 98>>
Atoms == {A, B, <<"eps">>, <<"any">>, <<"none">>, <<"str", <<97, 98>>>>, <<"str", <<98, 97, 98>>>>}
Un(T) == UNION { { <<"not", t>>, <<"star", t>>, <<"plus", t>>, <<"opt", t>>, <<"pow", t, 2>>, <<"loop", t, 1, 3>> } : t \in T }
Bi(S, T) == UNION { { <<"cat", <<x, y>>>>, <<"alt", <<x, y>>>>, <<"and", <<x, y>>>>, <<"diff", x, <<y>>>> } : x \in S, y \in T }
One == Atoms \cup Un(Atoms) \cup Bi(Atoms, Atoms)
Terms == IF Deep THEN One \cup Bi(Un(Atoms), {A, <<"str", <<98, 97, 98>>>>}) \cup Bi({B}, One) ELSE One

VARIABLES t, s, k, ne, i, j, d, pc
vars == <<t, s, k, ne, i, j, d, pc>>
\* search in s from k; ne = 1: a non-empty match is required; d: derivative of t along s[i..j)
Init == /\ t \in Terms /\ s \in Subjects /\ k \in 0..Len(s) /\ ne \in {0, 1}
        /\ i = k /\ j = k /\ d = Norm(t)
        /\ pc = (IF ne = 0 /\ Nul(Norm(t)) THEN "found" ELSE "scan")
Step == /\ pc = "scan" /\ i < Len(s) /\ j < Len(s)
        /\ LET x == D(s[j + 1], d) IN
           IF Nul(x) THEN j' = j + 1 /\ d' = x /\ pc' = "found" /\ UNCHANGED i
           ELSE IF x = None \/ j + 1 = Len(s)
                THEN i' = i + 1 /\ j' = i + 1 /\ d' = Norm(t) /\ UNCHANGED pc
                ELSE j' = j + 1 /\ d' = x /\ UNCHANGED <<i, pc>>
        /\ UNCHANGED <<t, s, k, ne>>
Fail == /\ pc = "scan" /\ i = Len(s)
        /\ pc' = "none" /\ UNCHANGED <<t, s, k, ne, i, j, d>>
Next == Step \/ Fail
Spec == Init /\ [][Next]_vars

R == Norm(t)
SearchRefines == /\ pc = "found" => FindMatch(R, s, k, ne) = <<i, j>>
                 /\ pc = "none"  => FindMatch(R, s, k, ne) = <<>>
DenotationAgrees == (pc # "scan") => FindMatch(R, s, k, ne) = SpanMatch(Spans(t, s), Len(s), k, ne)
ReplaceAgrees == (pc # "scan" /\ k = 0) =>
  \A u \in {<<>>, <<99>>, <<97, 98>>} :
     /\ ReplaceRe(R, s, u) = SpanReplace(Spans(t, s), s, u)
     /\ ReplaceReAllFrom(R, s, u, 0) = SpanReplaceAll(Spans(t, s), s, u, 0)
=============================================================================
