------------------------------- MODULE Replace ------------------------------
(***************************************************************************)
(* str.replace_re and str.replace_re_all of SMT-LIB 2.6: leftmost, then    *)
(* shortest match.  Once on residuals (any length), once read off the      *)
(* denotation (short subjects); MCReplace compares the two and the search  *)
(* algorithm of the crate.                                                 *)
(***************************************************************************)
EXTENDS RegLan

\* the least m in n..Len(w)+1 such that w[from+1..m] is in the language of R; -1 if none.
\* rr is the residual of R after w[from+1..n]
RECURSIVE ShortestFrom(_, _, _, _)
ShortestFrom(rr, w, n, min) ==
  IF n >= min /\ Nul(rr) THEN n
  ELSE IF n = Len(w) \/ rr = None THEN -1
  ELSE ShortestFrom(D(w[n + 1], rr), w, n + 1, min)
\* leftmost, then shortest, match at or after position p (0-based); <<>> if none. ne: 1 to require
\* a non-empty match
RECURSIVE FindMatch(_, _, _, _)
FindMatch(R, w, p, ne) ==
  LET m == ShortestFrom(R, w, p, p + ne) IN
  IF m # -1 THEN <<p, m>>
  ELSE IF p >= Len(w) THEN <<>>
  ELSE FindMatch(R, w, p + 1, ne)
ReplaceRe(R, w, t) ==
  LET m == FindMatch(R, w, 0, 0) IN
  IF m = <<>> THEN w ELSE SubSeq(w, 1, m[1]) \o t \o SubSeq(w, m[2] + 1, Len(w))
RECURSIVE ReplaceReAllFrom(_, _, _, _)
ReplaceReAllFrom(R, w, t, p) ==
  LET m == FindMatch(R, w, p, 1) IN
  IF m = <<>> THEN SubSeq(w, p + 1, Len(w))
  ELSE SubSeq(w, p + 1, m[1]) \o t \o ReplaceReAllFrom(R, w, t, m[2])
\* the same matches read off the denotation (spans), for short subjects
SpanMatch(S, n, p, ne) ==
  LET C == { x \in S : x[1] >= p /\ x[2] - x[1] >= ne } IN
  IF C = {} THEN <<>>
  ELSE CHOOSE x \in C : \A y \in C : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
RECURSIVE SpanReplaceAll(_, _, _, _)
SpanReplaceAll(S, w, t, p) ==
  LET m == SpanMatch(S, Len(w), p, 1) IN
  IF m = <<>> THEN SubSeq(w, p + 1, Len(w))
  ELSE SubSeq(w, p + 1, m[1]) \o t \o SpanReplaceAll(S, w, t, m[2])
SpanReplace(S, w, t) ==
  LET m == SpanMatch(S, Len(w), 0, 0) IN
  IF m = <<>> THEN w ELSE SubSeq(w, 1, m[1]) \o t \o SubSeq(w, m[2] + 1, Len(w))
=============================================================================
