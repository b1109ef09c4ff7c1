------------------------------ MODULE MCStrings ------------------------------
(***************************************************************************)
(* Strings checked against itself and against the scanning algorithm of    *)
(* the crate, for all subjects, patterns and start positions over a small  *)
(* alphabet.  The machine compares the pattern at position i character by  *)
(* character (j matched so far) and, for replace_all, continues after each *)
(* match; it refines IndexOf, Replace and ReplaceAll.                      *)
(***************************************************************************)
EXTENDS Strings, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
Sigma == {97, 98}
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE LET W == Words(n - 1) IN W \cup { Append(w, c) : w \in { x \in W : Len(x) = n - 1 }, c \in Sigma }
Subjects == Words(IF Deep THEN 7 ELSE 5)
Patterns == Words(IF Deep THEN 4 ELSE 3)
Texts    == {<<>>, <<99>>, <<97, 98>>}      \* replacements

VARIABLES s, p, r, all, i, j, pc, out, from
vars == <<s, p, r, all, i, j, pc, out, from>>
\* all: replace every match; from: end of the last match; pc "scan" | "stop"
Init == /\ s \in Subjects /\ p \in Patterns /\ r \in Texts /\ all \in BOOLEAN
        /\ i \in 0..Len(s) /\ (all => i = 0)
        /\ j = 0 /\ pc = "scan" /\ out = <<>> /\ from = i
Compare == /\ pc = "scan" /\ i + Len(p) <= Len(s) /\ j < Len(p) /\ p[j + 1] = s[i + j + 1]
           /\ j' = j + 1 /\ UNCHANGED <<s, p, r, all, i, pc, out, from>>
Shift   == /\ pc = "scan" /\ i + Len(p) <= Len(s) /\ j < Len(p) /\ p[j + 1] # s[i + j + 1]
           /\ i' = i + 1 /\ j' = 0 /\ UNCHANGED <<s, p, r, all, pc, out, from>>
Hit     == /\ pc = "scan" /\ i + Len(p) <= Len(s) /\ j = Len(p)
           /\ IF all /\ p # <<>>
              THEN /\ out' = out \o Cut(s, from, i) \o r
                   /\ from' = i + Len(p) /\ i' = i + Len(p) /\ j' = 0 /\ UNCHANGED pc
              ELSE /\ pc' = "found" /\ UNCHANGED <<out, from, i, j>>
           /\ UNCHANGED <<s, p, r, all>>
Miss    == /\ pc = "scan" /\ i + Len(p) > Len(s)
           /\ pc' = "none" /\ UNCHANGED <<s, p, r, all, i, j, out, from>>
Next == Compare \/ Shift \/ Hit \/ Miss
Spec == Init /\ [][Next]_vars

\* the search started at position "from" (all = FALSE)
SearchRefines == ~ all => /\ pc = "found" => IndexOf(s, p, from) = i
                          /\ pc = "none"  => IndexOf(s, p, from) = -1
ReplaceRefines == (~ all /\ from = 0) =>
  /\ pc = "found" => Replace(s, p, r) = Cut(s, 0, i) \o r \o Cut(s, i + Len(p), Len(s))
  /\ pc = "none"  => Replace(s, p, r) = s
ReplaceAllRefines == all =>
  /\ pc = "none"  => p # <<>> /\ ReplaceAll(s, p, r) = out \o Cut(s, from, Len(s))
  /\ pc = "found" => p = <<>> /\ ReplaceAll(s, p, r) = s
MatchInside == pc = "scan" => \A m \in 1..j : s[i + m] = p[m]
\* laws of the theory
Laws == pc = "scan" /\ j = 0 =>
  /\ Contains(s, p) = (IndexOf(s, p, 0) >= 0)
  /\ PrefixOf(p, s) = (IndexOf(s, p, 0) = 0)
  /\ SuffixOf(p, s) = (IF Len(p) > Len(s) THEN FALSE ELSE Substr(s, Len(s) - Len(p), Len(p)) = p)
  /\ Substr(s, i, Len(s)) = Cut(s, i, Len(s))
  /\ StrAt(s, i) = Substr(s, i, 1)
  /\ ~ Contains(s, p) => Replace(s, p, r) = s /\ ReplaceAll(s, p, r) = s
  \* order: total, irreflexive, consistent with prefixes
  /\ LexLe(s, p) = (LexLt(s, p) \/ s = p)
  /\ (IF LexLt(s, p) THEN 1 ELSE 0) + (IF LexLt(p, s) THEN 1 ELSE 0) + (IF s = p THEN 1 ELSE 0) = 1
  /\ PrefixOf(p, s) => LexLe(p, s)
W3 == Words(3)
ASSUME \A x, y, z \in W3 : (LexLt(x, y) /\ LexLt(y, z)) => LexLt(x, z)
\* numerals
ASSUME \A n \in (0..1200) \cup {2147483647, 2147483646, 1000000000, 999999999} :
         /\ ToInt(FromInt(n)) = n /\ FitsInt(FromInt(n)) /\ ToInt(<<48, 48>> \o FromInt(n)) = n
ASSUME ~ FitsInt(<<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>)
ASSUME \A c \in {0, 47, 48, 57, 58, 65533, 196607} : ToCode(FromCode(c)) = c
ASSUME FromCode(196608) = <<>> /\ FromCode(-1) = <<>> /\ FromInt(-1) = <<>>
=============================================================================
