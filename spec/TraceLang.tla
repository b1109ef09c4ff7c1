----------------------------- MODULE TraceLang ------------------------------
(***************************************************************************)
(* Recorded behaviour of expressions checked against RegLan                *)
(* (C01, C02, C03, C05, C10, C16, C18).                                    *)
(*                                                                         *)
(* mode = "call": the recorded calls of event k are judged (variable ok).  *)
(* mode = "lang": product search.  The event carries an observed transition*)
(*   structure (derivative graph or automaton): succ[q][l] for node q and  *)
(*   letter index l, nul[q] = node q accepts the empty string, and pairs   *)
(*   <<w,q>>: "the language of node q is the residual of the term after w".*)
(*   The search walks the specification's residuals and the observed nodes *)
(*   in lock step; an accepting disagreement is a word on which they       *)
(*   differ, so the absence of one is language equality for words of any   *)
(*   length over the recorded letters.                                     *)
(* mode = "incl": product of two residuals: no word of the first language  *)
(*   outside of the second one.                                            *)
(***************************************************************************)
EXTENDS Replace, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, mode, ok, r, q, s

vars == <<k, mode, ok, r, q, s>>

B(b) == IF b THEN 1 ELSE 0
Range(f) == { f[i] : i \in DOMAIN f }

(* the recorded letters represent every cell of the alphabet on which the residuals are uniform *)
Represents(L, R) ==
  LET C == Cuts(R) \cup {0} IN
  \A c \in C : \E l \in Range(L) : c <= l /\ \A d \in C : ~ (c < d /\ d <= l)

ShortWord == 4
MemOK(t, R, mem) ==
  \A i \in DOMAIN mem : LET w == mem[i][1] IN
     /\ mem[i][2] = B(MemberR(R, w))
     \* short words: also against the denotation
     /\ Len(w) <= ShortWord => mem[i][2] = B(Member(t, w))

LangOK(e) ==
  LET R == Norm(e.t) IN
  /\ e.flag = B(Nul(R))
  /\ MemOK(e.t, R, e.mem)
  /\ Represents(e.L, R)

DfaOK(e) ==
  LET R == Norm(e.t) IN
  /\ \A i \in DOMAIN e.mem  : e.mem[i][2] = B(MemberR(R, e.mem[i][1]))
  /\ \A i \in DOMAIN e.mem2 : e.mem2[i][2] = B(MemberR(R, e.mem2[i][1]))
  /\ Represents(e.L, R)
  /\ \A i \in DOMAIN e.succ : Len(e.succ[i]) = Len(e.L)        \* total

(* --- derivative classes (C03) --- *)
\* the intervals cls (any order) together cover [0,MaxChar]
RECURSIVE CoversFrom(_, _)
CoversFrom(cls, c) ==
  IF c > MaxChar THEN TRUE
  ELSE \E i \in DOMAIN cls : cls[i][1] <= c /\ c <= cls[i][2] /\ CoversFrom(cls, cls[i][2] + 1)
InClass(cls, c) == { i \in DOMAIN cls : cls[i][1] <= c /\ c <= cls[i][2] }
Overlap(x, a, b) == x[1] <= b /\ a <= x[2]
OneClass(cls, a, b) ==
  \/ \E i \in DOMAIN cls : cls[i][1] <= a /\ b <= cls[i][2]
  \/ \A i \in DOMAIN cls : ~ Overlap(cls[i], a, b)
DerivOK(e) ==
  LET full == CoversFrom(e.cls, 0)  n == Len(e.cls) IN
  \* the listed classes cover the alphabet
  /\ \A i \in 0..(n - 1) : i \in Range(e.ids)
  /\ full \/ -1 \in Range(e.ids)
  /\ \A i, j \in DOMAIN e.cls : i # j => ~ Overlap(e.cls[i], e.cls[j][1], e.cls[j][2])
  \* every listed class has a derivative
  /\ \A i \in DOMAIN e.cd : e.cd[i][2] = 1
  \* invalid ids are rejected with BadClassId (-2); the complementary class is valid iff it is not empty
  /\ \A i \in DOMAIN e.bad :
       IF e.bad[i][1] = -1 THEN e.bad[i][2] = (IF full THEN -2 ELSE 1)
       ELSE IF e.bad[i][1] < n THEN e.bad[i][2] = 1 ELSE e.bad[i][2] = -2
  \* a set has a derivative iff it lies in one class
  /\ \A i \in DOMAIN e.sd : LET x == e.sd[i] IN (x[3] = 1) = OneClass(e.cls, x[1], x[2])

(* --- emptiness (C05) --- *)
EmptyOK(e) ==
  LET R == Norm(e.t)
      ne == NonEmpty(R, Range(e.L)) IN
  /\ Represents(e.L, R)
  /\ e.emp = B(~ ne)
  /\ IF ne THEN /\ Len(e.wit) = 1
                /\ \A i \in DOMAIN e.wit[1] : e.wit[1][i] \in 0..MaxChar
                /\ MemberR(R, e.wit[1])
                /\ e.acc = 1 /\ e.dfa = 1 /\ e.good = 1
     ELSE e.wit = <<>>

(* --- start_char / start_class (C18) --- *)
StartOK(e) ==
  LET R == DW(e.pre, Norm(e.t))
      Ls == Range(e.L)
      chars == { e.q[i][1] : i \in DOMAIN e.q } \cup UNION { Range(e.cq[i][2]) : i \in DOMAIN e.cq }
      after == TLCEval([c \in chars |-> D(c, R)])
      starts == TLCEval([x \in Range(after) |-> NonEmpty(x, Ls)])
      n == Len(e.cls)
      full == CoversFrom(e.cls, 0) IN
  /\ Represents(e.L, R)
  /\ \A i \in DOMAIN e.q : e.q[i][2] = B(starts[after[e.q[i][1]]])
  /\ \A i \in DOMAIN e.cq : LET a == e.cq[i][1] IN
       \A j \in DOMAIN e.cq[i][2] : a = B(starts[after[e.cq[i][2][j]]])
  /\ \A i \in DOMAIN e.bad :
       IF e.bad[i][1] = -1 THEN e.bad[i][2] = (IF full THEN -2 ELSE 1)
       ELSE IF e.bad[i][1] < n THEN e.bad[i][2] = 1 ELSE e.bad[i][2] = -2

(* --- replacement (C10) --- *)
ReplOK(e) ==
  LET R == Norm(e.t) IN
  /\ e.res = (IF e.all = 1 THEN ReplaceReAllFrom(R, e.s, e.r, 0) ELSE ReplaceRe(R, e.s, e.r))
  /\ Len(e.s) <= ShortWord =>
       LET S == Spans(e.t, e.s) IN
       e.res = (IF e.all = 1 THEN SpanReplaceAll(S, e.s, e.r, 0) ELSE SpanReplace(S, e.s, e.r))

(* --- membership only (loops whose automata are out of reach) --- *)
VastOK(e) ==
  LET R == Norm(e.t) IN
  /\ e.flag = B(Nul(R))
  /\ \A i \in DOMAIN e.mem : e.mem[i][2] = B(MemberR(R, e.mem[i][1]))

InclOK(e) == Represents(e.L, Norm(e.t)) /\ Represents(e.L, Norm(e.u))

Accepts(e) ==
  CASE e.op = "lang"   -> LangOK(e)
    [] e.op = "dfa"    -> DfaOK(e)
    [] e.op = "deriv"  -> DerivOK(e) /\ Represents(e.L, Norm(e.t))
    [] e.op = "empty"  -> EmptyOK(e)
    [] e.op = "startc" -> StartOK(e)
    [] e.op = "repl"   -> ReplOK(e)
    [] e.op = "incl"   -> InclOK(e)
    [] e.op = "mem"    -> VastOK(e)
    [] OTHER           -> FALSE       \* panic, hang, crash: never a behaviour of the specification

HasGraph(e) == e.op \in {"lang", "dfa", "deriv"}

InitCall == /\ k \in 1..Len(Trace)
            /\ mode = "call" /\ ok = TRUE
            /\ r = None /\ q = 0 /\ s = None
InitLang == /\ k \in { i \in 1..Len(Trace) : HasGraph(Trace[i]) }
            /\ mode = "lang" /\ ok = TRUE /\ s = None
            /\ \E i \in DOMAIN Trace[k].st :
                 /\ r = DW(Trace[k].st[i][1], Norm(Trace[k].t))
                 /\ q = Trace[k].st[i][2]
InitIncl == /\ k \in { i \in 1..Len(Trace) : Trace[i].op = "incl" }
            /\ mode = "incl" /\ ok = TRUE /\ q = 0
            /\ r = Norm(Trace[k].t) /\ s = Norm(Trace[k].u)
Init == InitCall \/ InitLang \/ InitIncl

\* one character read by the specification and by the implementation
Read(l) == /\ mode = "lang" /\ q # 0
           /\ l \in DOMAIN Trace[k].L
           /\ r' = D(Trace[k].L[l], r)
           /\ q' = Trace[k].succ[q][l]
           /\ UNCHANGED <<k, mode, ok, s>>
ReadBoth(l) == /\ mode = "incl" /\ r # None /\ s # All
               /\ l \in DOMAIN Trace[k].L
               /\ r' = D(Trace[k].L[l], r)
               /\ s' = D(Trace[k].L[l], s)
               /\ UNCHANGED <<k, mode, ok, q>>
\* the call returns what the event says
Return == /\ mode = "call"
          /\ mode' = "done" /\ ok' = Accepts(Trace[k])
          /\ UNCHANGED <<k, r, q, s>>
Next == \/ Return
        \/ mode \in {"lang", "incl"} /\ \E l \in DOMAIN Trace[k].L : Read(l) \/ ReadBoth(l)
Spec == Init /\ [][Next]_vars

CallAccepted == ok
LangAgrees == mode = "lang" => q # 0 /\ Nul(r) = (Trace[k].nul[q] = 1)
Included == mode = "incl" => (Nul(r) => Nul(s))
=============================================================================
