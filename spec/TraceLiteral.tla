----------------------------- MODULE TraceLiteral ---------------------------
(* Recorded parses and prints of literals against Literals (C08).           *)
EXTENDS Literals, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, pc, ok
vars == <<k, pc, ok>>

\* <<text, parse_smt_literal(text)>>
ParseOK(x) == x[2] = Decode(x[1])
\* <<string, its Display, parse_smt_literal(the body of that)>>
ShowOK(x) == Denotes(x[2], x[1]) /\ x[3] = x[1]
\* <<character, char_to_smt, smt_char_as_string>>
ChrOK(x) == DenotesBody(x[2], <<x[1]>>) /\ DenotesBody(x[3], <<x[1]>>)

Accepts(e) == CASE e.op = "parse" -> \A i \in DOMAIN e.cases : ParseOK(e.cases[i])
                [] e.op = "show"  -> \A i \in DOMAIN e.cases : ShowOK(e.cases[i])
                [] e.op = "chr"   -> \A i \in DOMAIN e.cases : ChrOK(e.cases[i])
                [] OTHER -> FALSE

Init == k \in 1..Len(Trace) /\ pc = "call" /\ ok = TRUE
Return == pc = "call" /\ pc' = "done" /\ ok' = Accepts(Trace[k]) /\ UNCHANGED k
Spec == Init /\ [][Return]_vars
CallAccepted == ok
=============================================================================
