------------------------------ MODULE MCWitness ------------------------------
(***************************************************************************)
(* Emptiness test and witness (C05): breadth-first search over the         *)
(* derivative graph, over ALL graphs of N nodes and L labels.  Every       *)
(* visited node except the root remembers one edge (predecessor, label);   *)
(* the search stops at the first nullable node taken from the queue and    *)
(* the witness is read backwards along the remembered edges.               *)
(*                                                                         *)
(*   Path:     the remembered edges of a visited node form a path from the *)
(*             root to it (so the walk backwards ends, at the root)        *)
(*   Member:   the witness leads from the root to a nullable node          *)
(*   Shortest: no shorter one exists (the code promises this implicitly)   *)
(*   Agree:    "no witness" iff no nullable node is reachable, which is    *)
(*             what the separate emptiness test computes (two searches,    *)
(*             one answer)                                                 *)
(* The letters of a class are interchangeable (MCRegLan: UniformClasses),  *)
(* so a label stands for any character of its class.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
N == IF Deep THEN 4 ELSE 3
L == 2
VARIABLES succ, nul, queue, edge, pc, word
vars == <<succ, nul, queue, edge, pc, word>>
Root == <<0, 0>>
Init == /\ succ \in [1..N -> [1..L -> 1..N]] /\ nul \in SUBSET (1..N)
        /\ queue = <<1>> /\ edge = [ x \in {1} |-> Root ]
        /\ pc = "run" /\ word = <<>>

RECURSIVE PushAll(_, _, _, _)
PushAll(x, l, q, e) ==
  IF l > L THEN <<q, e>>
  ELSE LET y == succ[x][l] IN
       IF y \in DOMAIN e THEN PushAll(x, l + 1, q, e)
       ELSE PushAll(x, l + 1, Append(q, y), [ z \in DOMAIN e \cup {y} |-> IF z = y THEN <<x, l>> ELSE e[z] ])
\* labels from the root to x
RECURSIVE Back(_, _, _)
Back(e, x, k) == IF k = 0 \/ e[x] = Root THEN <<>> ELSE Append(Back(e, e[x][1], k - 1), e[x][2])
Pop == /\ pc = "run" /\ queue # <<>>
       /\ LET x == Head(queue) IN
          IF x \in nul
          THEN pc' = "found" /\ word' = Back(edge, x, N) /\ UNCHANGED <<queue, edge>>
          ELSE LET p == PushAll(x, 1, Tail(queue), edge) IN
               queue' = p[1] /\ edge' = p[2] /\ UNCHANGED <<pc, word>>
       /\ UNCHANGED <<succ, nul>>
Stop == pc = "run" /\ queue = <<>> /\ pc' = "none" /\ UNCHANGED <<succ, nul, queue, edge, word>>
Next == Pop \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Run(_, _)
Run(x, w) == IF w = <<>> THEN x ELSE Run(succ[x][Head(w)], Tail(w))
RECURSIVE Level(_)
Level(k) == IF k = 0 THEN {1} ELSE { succ[x][l] : x \in Level(k - 1), l \in 1..L }
Reachable == UNION { Level(k) : k \in 0..N }

Path == \A x \in DOMAIN edge : Run(1, Back(edge, x, N)) = x
Member == pc = "found" => Run(1, word) \in nul
Shortest == pc = "found" => \A k \in 0..(Len(word) - 1) : Level(k) \cap nul = {}
Agree == /\ (pc = "none" => Reachable \cap nul = {})
         /\ (pc = "found" => Reachable \cap nul # {})
Visited == \A i \in DOMAIN queue : queue[i] \in DOMAIN edge
Ends == <>(pc # "run")
=============================================================================
