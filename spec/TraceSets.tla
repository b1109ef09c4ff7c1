----------------------------- MODULE TraceSets ------------------------------
(* Recorded CharSet / CharPartition calls checked against CharSets (C11, C12, C20).
   Every recorded call is a one-step behaviour: the state is the index k of the event and the
   verdict of the specification on it.                                                        *)
EXTENDS CharSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, ok

B(b) == IF b THEN 1 ELSE 0

(* ---- C20 ---- *)
PairOK(e) ==
  /\ e.covers = B(Covers(e.x, e.y))
  /\ e.inter = InterOf(e.x, e.y)
  /\ e.ilist = InterOf(e.x, e.y)
  /\ e.union = UnionOf(e.x, e.y)
  /\ e.cmp = Cmp(e.x, e.y)
  /\ e.ops = OpsCode(e.x, e.y)
PointOK(e) ==
  /\ e.contains = B(e.t \in Pts(e.x))
  /\ e.before = B(\A a \in Pts(e.x) : a < e.t)
  /\ e.after = B(\A a \in Pts(e.x) : e.t < a)
  /\ e.pick \in Pts(e.x)
IListOK(e) == e.r = OptInterval(InterSeq(e.l, 0..(e.N - 1)))
ConcOK(e) ==
  /\ e.size = e.x[2] - e.x[1] + 1
  /\ e.single = B(e.x[1] = e.x[2])
  /\ e.alpha = B(e.x = <<0, 196607>>)
  /\ e.x[1] <= e.pick /\ e.pick <= e.x[2]
  /\ e.contains = B(e.x[1] <= e.ch /\ e.ch <= e.x[2])
  /\ e.before = B(e.x[2] < e.ch)
  /\ e.after = B(e.ch < e.x[1])
  /\ e.covers = B(ECovers(e.x, e.y))
  /\ e.inter = EInter(e.x, e.y)
  /\ e.union = EUnion(e.x, e.y)
  /\ e.cmp = ECmp(e.x, e.y)

(* ---- C11 ---- *)
PartOK(e) ==
  LET p == e.p  N == e.N  ids == ClassIds(p, N) IN
  /\ e.len = Len(p) /\ e.isempty = B(Len(p) = 0)
  /\ e.ivs = p /\ e.gets = p /\ e.oob = 1
  /\ \A t \in 0..(N - 1) : e.cls[t + 1] = ClassOf(p, t)
  /\ \A i \in DOMAIN e.q : LET r == CoverOf(p, e.q[i]) IN
       /\ e.cover[i] = r /\ e.cset[i] = r /\ e.good[i] = B(r # -2)
  /\ GoodWitness(e.comp, p, N)
  /\ e.ecomp = B(Comp(p, N) = {})
  /\ e.ncls = NumClasses(p, N)
  /\ e.valid = [i \in 1..(Len(p) + 3) |-> B(i <= Len(p))]
  /\ e.vcomp = B(Comp(p, N) # {})
  /\ e.ids = ids
  /\ Len(e.picks) = Len(ids) /\ Len(e.pic) = Len(ids)
  /\ \A i \in DOMAIN ids : e.picks[i] \in ClassSet(p, N, ids[i]) /\ e.pic[i] \in ClassSet(p, N, ids[i])
  /\ e.badpick = 0 /\ e.hint = 1
CsnOK(e) == \A i \in DOMAIN e.q : e.ans[i] = CoverOf(e.p, e.q[i])
TryOK(e) ==
  IF PairwiseDisjoint(e.l)
  THEN /\ e.ok = 1
       /\ e.ivs = SortIntervals({ e.l[i] : i \in DOMAIN e.l })
       /\ GoodWitness(e.comp, e.ivs, e.N)
       /\ e.ecomp = B(Comp(e.ivs, e.N) = {})
  ELSE e.ok = 0

(* ---- C12 ---- *)
MergeOK(e) ==
  LET m == Merge(e.ps, e.N) IN
  /\ e.ivs = m
  /\ GoodWitness(e.comp, m, e.N)
  /\ e.ecomp = B(Comp(m, e.N) = {})

Accepts(e) ==
  CASE e.op = "pair"  -> PairOK(e)
    [] e.op = "point" -> PointOK(e)
    [] e.op = "ilist" -> IListOK(e)
    [] e.op = "conc"  -> ConcOK(e)
    [] e.op = "part"  -> PartOK(e)
    [] e.op = "csn"   -> CsnOK(e)
    [] e.op = "try"   -> TryOK(e)
    [] e.op = "merge" -> MergeOK(e)
    [] OTHER          -> FALSE          \* panic, hang, crash: never a behaviour of the specification

Init == k \in 1..Len(Trace) /\ ok = Accepts(Trace[k])
Next == UNCHANGED <<k, ok>>
Spec == Init /\ [][Next]_<<k, ok>>
Accepted == ok
=============================================================================
