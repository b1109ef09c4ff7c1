---------------------------- MODULE TraceBuilder ----------------------------
(***************************************************************************)
(* AutomatonBuilder as a state machine (C13).                              *)
(*                                                                         *)
(* The state of the specification is what the caller has said so far:      *)
(*   names  the states mentioned (sequence, in order of first mention)     *)
(*   trans  set of <<s, a, b, t>>: "from s, characters a..b go to t"       *)
(*   dflt   set of <<s, t>>: declared default successors (the last         *)
(*          declaration for s counts)                                      *)
(*   final  the states marked final                                        *)
(* Build is enabled with outcome "rejected" or with an automaton according *)
(* to Outcome below; it does not change the state.                         *)
(* A recorded session is replayed call by call; a Build whose recorded     *)
(* outcome the specification does not allow makes ok false.                *)
(***************************************************************************)
EXTENDS Builder, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
MaxChar == 196607

VARIABLES k, i, names, trans, dflt, final, ok
vars == <<k, i, names, trans, dflt, final, ok>>

Range(f) == { f[x] : x \in DOMAIN f }
Mention(ns, s) == IF s \in Range(ns) THEN ns ELSE Append(ns, s)

(****************************** the automaton *******************************)
\* b = <<"b", 1, initial, fin, nf, succ>>; f maps names to states of the automaton (id + 1)
Matches(e, b, f) ==
  /\ f[names[1]] = b[3]
  /\ \A s \in Range(names) :
       /\ b[4][f[s]] = (IF s \in final THEN 1 ELSE 0)
       /\ \A l \in DOMAIN e.L : b[6][f[s]][l] = f[Delta(trans, dflt, s, e.L[l])]
InOrder == [ s \in Range(names) |-> CHOOSE x \in DOMAIN names : names[x] = s ]
Renamings(n) == { f \in [ Range(names) -> 1..n ] : Range(f) = 1..n }
\* for larger sessions: the naming is followed from the initial state only
RECURSIVE Follow(_, _, _, _)
Follow(e, b, P, F) ==
  IF F = {} THEN P
  ELSE LET N == UNION { { <<Delta(trans, dflt, x[1], e.L[l]), b[6][x[2]][l]>> : l \in DOMAIN e.L } : x \in F } \ P
       IN Follow(e, b, P \cup N, N)
MatchesReachable(e, b) ==
  LET P == Follow(e, b, { <<names[1], b[3]>> }, { <<names[1], b[3]>> }) IN
  /\ \A x, y \in P : x[1] = y[1] <=> x[2] = y[2]
  /\ \A x \in P : b[4][x[2]] = (IF x[1] \in final THEN 1 ELSE 0)
AutomatonOK(e, b) ==
  LET n == Len(b[4]) IN
  /\ n = Len(names) /\ Len(b[6]) = n
  /\ b[5] = Cardinality(final)
  /\ \A q \in 1..n : Len(b[6][q]) = Len(e.L) /\ \A l \in DOMAIN e.L : b[6][q][l] \in 1..n
  \* ids are not part of the contract: any one-to-one naming of the states will do
  /\ \/ Matches(e, b, InOrder)
     \/ n > 5 /\ MatchesReachable(e, b)
     \/ n <= 5 /\ \E f \in Renamings(n) : Matches(e, b, f)

\* letters of the event distinguish all pieces
LettersOK(e) == \A s \in Range(names) : Cuts(trans, s, MaxChar) \subseteq Range(e.L)

Outcome(e, b) ==
  LET S == Range(names)
      broken == \E s \in S : Broken(trans, dflt, s, MaxChar)
      redundant == \E s \in S : Redundant(trans, dflt, s, MaxChar) IN
  /\ LettersOK(e)
  /\ IF broken THEN b[2] = 0
     ELSE IF b[2] = 0 THEN redundant
     ELSE AutomatonOK(e, b)

\* build_unchecked has the same result, for specifications that are complete and without
\* overlapping labels; nothing is said about others (nor about the same transition given twice:
\* the recorder leaves the call out then, trans is a set)
Overlapping(s) == \E x, y \in trans : x # y /\ x[1] = s /\ y[1] = s /\ x[2] <= y[3] /\ y[2] <= x[3]
UncheckedOutcome(e, b) ==
  LET S == Range(names) IN
  (\A s \in S : ~ Broken(trans, dflt, s, MaxChar) /\ ~ Overlapping(s) /\ ~ Redundant(trans, dflt, s, MaxChar))
    => (b[2] = 1 /\ AutomatonOK(e, b))

(********************************* actions **********************************)
Event == Trace[k]
Call == Event.log[i + 1]
More == i < Len(Event.log) /\ ok

Init == /\ k \in 1..Len(Trace)
        /\ i = 0
        /\ names = <<Trace[k].init>>
        /\ trans = {} /\ dflt = {} /\ final = {}
        /\ ok = (Trace[k].op = "builder")
AddTransition == /\ More /\ Call[1] = "t"
                 /\ i' = i + 1
                 /\ names' = Mention(Mention(names, Call[2]), Call[5])
                 /\ trans' = trans \cup { <<Call[2], Call[3], Call[4], Call[5]>> }
                 /\ UNCHANGED <<k, dflt, final, ok>>
SetDefault == /\ More /\ Call[1] = "d"
              /\ i' = i + 1
              /\ names' = Mention(Mention(names, Call[2]), Call[3])
              /\ dflt' = { x \in dflt : x[1] # Call[2] } \cup { <<Call[2], Call[3]>> }
              /\ UNCHANGED <<k, trans, final, ok>>
MarkFinal == /\ More /\ Call[1] = "f"
             /\ i' = i + 1
             /\ names' = Mention(names, Call[2])
             /\ final' = final \cup { Call[2] }
             /\ UNCHANGED <<k, trans, dflt, ok>>
Build == /\ More /\ Call[1] = "b"
         /\ i' = i + 1
         /\ ok' = Outcome(Event, Call)
         /\ UNCHANGED <<k, names, trans, dflt, final>>
BuildUnchecked == /\ More /\ Call[1] = "u"
                  /\ i' = i + 1
                  /\ ok' = UncheckedOutcome(Event, Call)
                  /\ UNCHANGED <<k, names, trans, dflt, final>>
Next == AddTransition \/ SetDefault \/ MarkFinal \/ Build \/ BuildUnchecked
Spec == Init /\ [][Next]_vars

CallAccepted == ok
=============================================================================
