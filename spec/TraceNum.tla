------------------------------- MODULE TraceNum -----------------------------
(* Recorded comparisons and conversions against Strings (C09).  -9 is a     *)
(* panic: to_int has to panic when the value doesn't fit, and only then.    *)
EXTENDS Strings, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, pc, ok
vars == <<k, pc, ok>>

B(b) == IF b THEN 1 ELSE 0
Panic == -9

OrderOK(x) == x[3] = B(LexLt(x[1], x[2])) /\ x[4] = B(LexLe(x[1], x[2]))
ToIntOK(x) == x[2] = (IF IsNumeral(x[1]) /\ ~ FitsInt(x[1]) THEN Panic ELSE ToInt(x[1]))
\* <<n, from_int(n), to_int of that>>
FromIntOK(x) == x[2] = FromInt(x[1]) /\ x[3] = (IF x[1] >= 0 THEN x[1] ELSE -1)
\* <<n, from_code(n), to_code of that, is_digit of that>>
CodeOK(x) == /\ x[2] = FromCode(x[1])
             /\ x[3] = (IF x[1] \in 0..MaxChar THEN x[1] ELSE -1)
             /\ x[4] = B(IsDigit(FromCode(x[1])))
AsCodeOK(x) == x[2] = ToCode(x[1]) /\ x[3] = B(IsDigit(x[1]))

CaseOK(op, x) == CASE op = "order"   -> OrderOK(x)
                   [] op = "toint"   -> ToIntOK(x)
                   [] op = "fromint" -> FromIntOK(x)
                   [] op = "code"    -> CodeOK(x)
                   [] op = "ascode"  -> AsCodeOK(x)
                   [] OTHER -> FALSE
Accepts(e) == e.op \notin {"crash", "hang", "panic"} /\ \A i \in DOMAIN e.cases : CaseOK(e.op, e.cases[i])

Init == k \in 1..Len(Trace) /\ pc = "call" /\ ok = TRUE
Return == pc = "call" /\ pc' = "done" /\ ok' = Accepts(Trace[k]) /\ UNCHANGED k
Spec == Init /\ [][Return]_vars
CallAccepted == ok
=============================================================================
