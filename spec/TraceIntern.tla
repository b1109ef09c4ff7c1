----------------------------- MODULE TraceIntern ----------------------------
(***************************************************************************)
(* Hash-consing (C07).                                                     *)
(*                                                                         *)
(* session  One manager.  Terms are handles 1, 2, ... (one per object, in  *)
(*          the order in which they were first seen).  The state is the    *)
(*          intern table: a partial function from constructor calls        *)
(*          <<name, parameters, argument handles>> to handles.  A call     *)
(*          that is in the table returns the handle in the table; a call   *)
(*          that is not may return any handle.  Complement calls are in    *)
(*          the table in pairs (x to h, h to x) with x # h.  Derivatives,  *)
(*          compilations, emptiness and membership calls leave the table   *)
(*          as it is.  Only a handle compares equal to itself.             *)
(* history  The same construction in a new manager (nul, succ) and after a *)
(*          history (nul2, succ2): synchronous run of the two derivative   *)
(*          tables; nullability has to agree at every pair reached.        *)
(* answers  Membership answers through the thread-local manager (of this   *)
(*          thread, and of a new thread) and through an own manager; or    *)
(*          those of a loop or a range with given bounds, in a new manager *)
(*          (own) and after constructions that differ in the bounds.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, mode, ok, n, tab, p, q
\* k: event; n: steps of the session done; tab: the intern table; <<p, q>>: pair of derivatives
vars == <<k, mode, ok, n, tab, p, q>>

Is(i, op) == Trace[i].op = op
InitSession == /\ k \in { i \in 1..Len(Trace) : Is(i, "session") } /\ mode = "session" /\ ok = TRUE
               /\ n = 0 /\ tab = <<>> /\ p = 0 /\ q = 0
InitHistory == /\ k \in { i \in 1..Len(Trace) : Is(i, "history") } /\ mode = "run" /\ ok = TRUE
               /\ n = 0 /\ tab = <<>> /\ p = 1 /\ q = 1
InitCall    == /\ k \in { i \in 1..Len(Trace) : ~ Is(i, "session") } /\ mode = "call" /\ ok = TRUE
               /\ n = 0 /\ tab = <<>> /\ p = 0 /\ q = 0
Init == InitSession \/ InitHistory \/ InitCall

----
Comp(x) == <<"complement", <<>>, <<x>>>>
With(f, key, h) == [ y \in (DOMAIN f) \cup {key} |-> IF y = key THEN h ELSE f[y] ]

\* may the call key return h?
MkEnabled(key, h) ==
  /\ h > 0
  /\ key \in DOMAIN tab => tab[key] = h
  /\ key[1] = "complement" =>
       /\ h # key[3][1]
       /\ Comp(h) \in DOMAIN tab => tab[Comp(h)] = key[3][1]
Intern(key, h) == IF key[1] = "complement" THEN With(With(tab, key, h), Comp(h), key[3][1])
                  ELSE With(tab, key, h)

St == Trace[k].steps[n + 1]
More == mode = "session" /\ ok /\ n < Len(Trace[k].steps)
Mk == /\ More /\ St[1] = "mk"
      /\ LET key == <<St[2], St[3], St[4]>> IN
         /\ ok' = MkEnabled(key, St[5])
         /\ tab' = Intern(key, St[5])
      /\ n' = n + 1
      /\ UNCHANGED <<k, mode, p, q>>
Use == /\ More /\ St[1] = "use"
       /\ ok' = (St[2] # "panic")
       /\ n' = n + 1
       /\ UNCHANGED <<k, mode, tab, p, q>>
Compare == /\ More /\ St[1] = "cmp"
           /\ ok' = (St[3] = <<St[2]>> /\ St[4] = <<St[2]>> /\ St[5] = <<St[2]>>)
           /\ n' = n + 1
           /\ UNCHANGED <<k, mode, tab, p, q>>
----
HistoryOK(e) == e.again = 1
AnswersOK(e) == e.here = e.own /\ e.there = e.own
Accepts(e) == CASE e.op = "history" -> HistoryOK(e)
                [] e.op = "answers" -> AnswersOK(e)
                [] OTHER -> FALSE
Return == /\ mode = "call" /\ mode' = "done" /\ ok' = Accepts(Trace[k])
          /\ UNCHANGED <<k, n, tab, p, q>>
Run(l) == /\ mode = "run" /\ ok
          /\ LET e == Trace[k] IN
             /\ p' = e.succ[p][l] /\ q' = e.succ2[q][l]
          /\ UNCHANGED <<k, mode, ok, n, tab>>
Next == Mk \/ Use \/ Compare \/ Return
        \/ \E l \in 1..(IF mode = "run" THEN Len(Trace[k].L) ELSE 0) : Run(l)
Spec == Init /\ [][Next]_vars

SameLanguage == mode = "run" => Trace[k].nul[p] = Trace[k].nul2[q]
Allowed == ok
=============================================================================
