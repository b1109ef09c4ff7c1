----------------------------- MODULE TraceLoops -----------------------------
(* Recorded LoopRange calls against Loops (C15).  A result is a range, or   *)
(* "panic"; a panic is only a behaviour of the specification when the       *)
(* result does not fit in 32 bits (documented), and then nothing else is.   *)
EXTENDS Loops, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, pc, ok
vars == <<k, pc, ok>>

B(b) == IF b THEN 1 ELSE 0
Res(recorded, r) == recorded = (IF Fits(r) THEN <<r>> ELSE <<>>)
\* mul has to contain every product; the tightest such interval is LMul
MulRes(recorded, r, s) ==
  LET m == LMul(r, s) IN
  IF Fits(m) THEN recorded # <<>> /\ LIncludes(recorded[1], m) ELSE recorded = <<>>

PairOK(e) ==
  /\ Res(e.add, LAdd(e.r, e.s))
  /\ MulRes(e.mul, e.r, e.s)
  /\ e.inc = B(LIncludes(e.r, e.s))
  \* exact iff the union equals the interval that mul returned
  /\ e.exact = B(LExact(e.r, e.s) /\ (e.mul = <<>> \/ e.mul = <<LMul(e.r, e.s)>>))
OneOK(e) ==
  /\ \A i \in DOMAIN e.scale : Res(e.scale[i][2], LScale(e.r, e.scale[i][1]))
  /\ \A i \in DOMAIN e.addp  : Res(e.addp[i][2], LAdd(e.r, <<e.addp[i][1], e.addp[i][1]>>))
  /\ Res(e.shift, LShift(e.r))
  /\ \A i \in DOMAIN e.has : e.has[i][2] = B(LContains(e.r, e.has[i][1]))
  /\ e.preds = << B(Fin(e.r)), B(~ Fin(e.r)), B(e.r[1] = e.r[2]), B(IsZero(e.r)),
                  B(e.r[1] = Big(1) /\ e.r[2] = Big(1)), B(e.r[1] = Big0 /\ ~ Fin(e.r)) >>
  /\ e.start = e.r[1]

Accepts(e) == CASE e.op = "pair" -> PairOK(e) [] e.op = "one" -> OneOK(e) [] OTHER -> FALSE

Init == k \in 1..Len(Trace) /\ pc = "call" /\ ok = TRUE
Return == pc = "call" /\ pc' = "done" /\ ok' = Accepts(Trace[k]) /\ UNCHANGED k
Spec == Init /\ [][Return]_vars
CallAccepted == ok
=============================================================================
