----------------------------- MODULE TraceStrings ---------------------------
(***************************************************************************)
(* Recorded calls of the string functions against Strings (C06), and the   *)
(* well-formedness of every string handed out (C17).                       *)
(* A recorded string <<-1>> or truth value 2 or integer -9 is a panic: it  *)
(* is never equal to the value that the specification defines.             *)
(***************************************************************************)
EXTENDS Strings, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, pc, ok
vars == <<k, pc, ok>>

B(b) == IF b THEN 1 ELSE 0

PairOK(e) ==
  /\ e.cat = e.s \o e.p
  /\ e.pre = B(PrefixOf(e.p, e.s))
  /\ e.suf = B(SuffixOf(e.p, e.s))
  /\ e.con = B(Contains(e.s, e.p))
  /\ \A i \in DOMAIN e.idx : e.idx[i][2] = IndexOf(e.s, e.p, e.idx[i][1])
  /\ \A i \in DOMAIN e.rep : LET r == e.rep[i] IN
       /\ r[2] = Replace(e.s, e.p, r[1])
       /\ r[3] = ReplaceAll(e.s, e.p, r[1])
OneOK(e) ==
  /\ e.len = Len(e.s)
  /\ \A i \in DOMAIN e.at : e.at[i][2] = StrAt(e.s, e.at[i][1])
  /\ \A i \in DOMAIN e.sub : LET r == e.sub[i] IN r[3] = Substr(e.s, r[1], r[2])

(* C17: integers are written <<high half, low half>>; an SMT character has  *)
(* a high half of at most 2.                                                *)
GoodPart(x) == x[1] \in 0..2 /\ x[2] \in 0..65535
GoodAll(v) == \A i \in DOMAIN v : GoodPart(v[i])
Repl(x) == IF GoodPart(x) THEN x ELSE <<0, ReplacementChar>>
\* valid characters are kept
KeptOf(inp, res) == Len(res) = Len(inp) /\ \A i \in DOMAIN inp : GoodPart(inp[i]) => res[i] = inp[i]
GoodCaseOK(x) ==
  LET what == x[1]  inp == x[2]  res == x[3] IN
  /\ GoodAll(res)
  /\ x[4] = 1                    \* is_good
  /\ x[5] = 1                    \* usable with the other functions
  /\ what = "int" => res = [i \in DOMAIN inp |-> Repl(inp[i])]
  /\ what = "text" => KeptOf(inp, res)
GoodOK(e) == \A i \in DOMAIN e.cases : GoodCaseOK(e.cases[i])

Accepts(e) == CASE e.op = "pair" -> PairOK(e)
                [] e.op = "one"  -> OneOK(e)
                [] e.op = "good" -> GoodOK(e)
                [] OTHER -> FALSE

Init == k \in 1..Len(Trace) /\ pc = "call" /\ ok = TRUE
Return == pc = "call" /\ pc' = "done" /\ ok' = Accepts(Trace[k]) /\ UNCHANGED k
Spec == Init /\ [][Return]_vars
CallAccepted == ok
=============================================================================
