------------------------------ MODULE TraceBuild ----------------------------
(***************************************************************************)
(* Forests made from given leaves or from points, data moved between       *)
(* partitions, and communicators reduced to the processes with leaves.     *)
(***************************************************************************)
EXTENDS TraceIO

(***************************************************************************)
(* C23: the built forest has the added quadrants as leaves and fills the   *)
(* rest of each process's part of each tree with the coarsest leaves.      *)
(***************************************************************************)
\* first and last deepest position of the leaves of tree t among qs
TreeRange(qs, t) ==
  LET ii == {i \in 1..Len(qs) : qs[i][1] = t}
      lo == CHOOSE i \in ii : \A j \in ii : i <= j
      hi == CHOOSE i \in ii : \A j \in ii : j <= i
  IN <<FirstDesc(qs[lo], QMAXL), LastDesc(qs[hi], QMAXL)>>
InRange(p, rg) == /\ PosCmp(FirstDesc(p, QMAXL), rg[1]) >= 0
                  /\ PosCmp(LastDesc(p, QMAXL), rg[2]) <= 0
\* a leaf of the local part old that was not asked for has to be needed
Needed(q, rg, added) ==
  \/ q[2] = 0
  \/ ~InRange(Parent(q), rg)
  \/ \E a \in added : IsAnc(Parent(q), a)
Fill(new, old, added) ==
  LET rgs == [t \in {old[i][1] : i \in 1..Len(old)} |-> TreeRange(old, t)]
  IN \A i \in 1..Len(new) : new[i] \in added
        \/ (new[i][1] \in DOMAIN rgs /\ Needed(new[i], rgs[new[i][1]], added))
AsInit(cb) == [i \in 1..Len(cb) |-> IF cb[i][1] = "j" THEN <<"i", cb[i][2], cb[i][3]>> ELSE cb[i]]
TagSet(cb, t) == LET s == SelectSeq(cb, LAMBDA x : x[1] = t) IN {s[i][2] : i \in 1..Len(s)}
TagNum(cb, t) == Len(SelectSeq(cb, LAMBDA x : x[1] = t))

DoBuild(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} :
     LET added(r) == {e.R[r].ad[i][1] : i \in 1..Len(e.R[r].ad)}
         own == (e.fl \div 2) % 2 = 1       \* an initialiser of its own for added leaves
         ownNull == own /\ (e.fl \div 4) % 2 = 1
         Cl(L, n) ==
           /\ Clause(e, "C23", "add-reports-new", \A r \in Procs(e) :
                \A i \in 1..Len(e.R[r].ad) : e.R[r].ad[i][2] = 1 /\ e.R[r].ad[i][3] = 0)
           /\ Clause(e, "C23", "added-are-leaves", \A r \in Procs(e) :
                added(r) \subseteq Range(e.R[r].q))
           /\ Clause(e, "C23", "rest-coarsest", \A r \in Procs(e) :
                Fill(e.R[r].q, LocalOf(o.L, o.cut, r - 1), added(r)))
           /\ Clause(e, "C23", "partition-region-kept", SameRegion(o, n))
           /\ Clause(e, "C23", "bookkeeping", MarkersOk(e, cs[o.cs], L, CutOf(e))
                          /\ \A r \in Procs(e) : MetaRank(e, r, cs[o.cs], L, CutOf(e)))
           /\ Clause(e, "C23", "fresh", n.rev = 0 /\ n.dsz = e.dsz /\ \A r \in Procs(e) : e.R[r].up = 1)
           /\ Clause(e, "C23", "initialised", \A r \in Procs(e) :
                \E A \in {added(r)} :
                /\ TagSet(e.R[r].cb, "j") = (IF own /\ ~ownNull THEN A ELSE {})
                /\ TagSet(e.R[r].cb, "i") = (IF e.fl % 2 = 0 THEN {}
                                             ELSE IF own THEN Range(e.R[r].q) \ A ELSE Range(e.R[r].q))
                /\ TagNum(e.R[r].cb, "i") + TagNum(e.R[r].cb, "j")
                     = Cardinality(TagSet(e.R[r].cb, "i")) + Cardinality(TagSet(e.R[r].cb, "j")))
           /\ Clause(e, "C23", "data", e.dsz > 0 =>
                \A r \in Procs(e) : LET R == e.R[r]
                                        m == ReplayCb(AsInit(R.cb), <<>>, TRUE, e.dsz).m IN
                Len(R.v) = Len(R.q) /\ \A i \in 1..Len(R.q) : Cur(m, R.q[i]) \in {R.v[i], -7})
     IN WithPost(e, e.d, o.cs, Cl)

(***************************************************************************)
(* C24: forests from points.  The points are sorted over the processes;    *)
(* process r starts at the level-ml cell of its first point.               *)
(***************************************************************************)
\* point p (an anchor, level 30) lies in leaf q
PtIn(q, p) == p[1] = q[1] /\ \A a \in Axes : q[2 + a] <= p[2 + a] /\ p[2 + a] - q[2 + a] < H(q)
PtCmp(p, q) == IF p[1] # q[1] THEN (IF p[1] < q[1] THEN -1 ELSE 1) ELSE PosCmp(p, q)
CountEq(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
SamePoints(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CountEq(a, a[i]) = CountEq(b, a[i])
PtsIn(q, pts) == Len(SelectSeq(pts, LAMBDA p : PtIn(q, p)))
CellOf(p, ml) == IF p[2] = ml THEN p ELSE Anc(p, ml)

DoPoints(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E in \in {Flat([r \in Procs(e) |-> e.R[r].in])} :
     \E out \in {Flat([r \in Procs(e) |-> e.R[r].out])} :
     LET Cl(L, n) ==
           /\ Clause(e, "C24", "points-sorted", \A i \in 1..(Len(out) - 1) : PtCmp(out[i], out[i + 1]) <= 0)
           /\ Clause(e, "C24", "points-kept", SamePoints(in, out)
                          /\ \A r \in Procs(e) : Len(e.R[r].in) = Len(e.R[r].out))
           /\ Clause(e, "C24", "level-bound", \A i \in 1..Len(L) : L[i][2] <= e.ml)
           /\ Clause(e, "C24", "points-per-leaf", e.mp >= 0 =>
                \A r \in Procs(e) : \A i \in 1..Len(e.R[r].q) :
                  e.R[r].q[i][2] < e.ml =>
                    PtsIn(e.R[r].q[i], IF aux.grp < 0 THEN out ELSE e.R[r].out) <= e.mp)
           \* a point is on the process of its leaf unless it shares the
           \* smallest cell with the first point of a later one
           /\ Clause(e, "C24", "points-near-leaves", \A r \in Procs(e) : \A i \in 1..Len(e.R[r].out) :
                \/ \E j \in 1..Len(e.R[r].q) : PtIn(e.R[r].q[j], e.R[r].out[i])
                \/ \E s \in (r + 1)..e.P : Len(e.R[s].out) > 0
                      /\ CellOf(e.R[s].out[1], e.ml) = CellOf(e.R[r].out[i], e.ml))
           /\ Clause(e, "C24", "coarsest", \A r \in Procs(e) :
                \E qs \in {e.R[r].q} :
                \E rgs \in {[t \in {qs[i][1] : i \in 1..Len(qs)} |-> TreeRange(qs, t)]} :
                \A i \in 1..Len(qs) :
                  \/ qs[i][2] = 0
                  \/ ~InRange(Parent(qs[i]), rgs[qs[i][1]])
                  \/ (e.mp >= 0 /\ PtsIn(Parent(qs[i]), e.R[r].out) > e.mp))
           /\ Clause(e, "C24", "bookkeeping", MarkersOk(e, cs[e.cs], L, CutOf(e))
                          /\ \A r \in Procs(e) : MetaRank(e, r, cs[e.cs], L, CutOf(e)) /\ e.R[r].val = 1)
           /\ Clause(e, "C24", "fresh", n.dsz = e.dsz /\ \A r \in Procs(e) : e.R[r].up = 1)
           /\ Clause(e, "C24", "initialised", \A r \in Procs(e) :
                InitOk(e.R[r], Range(e.R[r].q), Range(e.R[r].q), e.fl)
                /\ (e.fl % 2 = 1 => DataOk(e, r, <<>>, <<>>, e.fl)))
     IN /\ Clause(e, "C24", "valid-forest", Tiling(PostL(e), cs[e.cs].nt))
        /\ WithPost(e, e.s, e.cs, Cl)

(***************************************************************************)
(* C25: data of leaf g arrives, unchanged, at the new owner of leaf g.     *)
(***************************************************************************)
DoTransfer(e) ==
  /\ Step /\ UNCHANGED <<cs, fs, dead, aux>>
  /\ \E o \in {fs[e.s]} :
     \E ss \in {Flat([r \in Procs(e) |-> e.R[r].ss])} :
     \E ds \in {Flat([r \in Procs(e) |-> e.R[r].ds])} :
     \E sd \in {Flat([r \in Procs(e) |-> e.R[r].sd])} :
     \E dd \in {Flat([r \in Procs(e) |-> e.R[r].dd])} :
     \E bytes \in {[r \in Procs(e) |-> SumSeq(e.R[r].ds) * (IF e.kind >= 4 THEN e.item ELSE 1)]} :
     /\ Clause(e, "C25", "sizes", ds = ss /\ \A r \in Procs(e) :
          /\ Len(e.R[r].ds) = e.dst[r + 1] - e.dst[r]
          /\ Len(e.R[r].ss) = o.cut[r + 1] - o.cut[r])
     /\ Clause(e, "C25", "data", dd = sd /\ \A r \in Procs(e) : Len(e.R[r].dd) = bytes[r])
     /\ Clause(e, "C25", "nothing-else-written", \A r \in Procs(e) : e.R[r].guard = 1)

(***************************************************************************)
(* C27: the reduced communicator consists of the processes with leaves and *)
(* of those asked for, the latter before or after the former, and the      *)
(* forest is the same on it, also for later operations.                    *)
(***************************************************************************)
DoReduce(e) ==
  /\ Step /\ UNCHANGED <<cs, fs, dead, aux>>
  /\ \E o \in {fs[e.s]} :
     \E ne \in {SelectSeq([r \in Procs(e) |-> r - 1], LAMBDA r : o.cut[r + 1] < o.cut[r + 2])} :
     \E extra \in {SelectSeq(e.add, LAMBDA r : o.cut[r + 1] = o.cut[r + 2])} :
     \* the order reported by a process that is a member in any case
     \E want \in {IF Len(ne) = e.P \/ e.mode = 0 THEN ne ELSE e.R[ne[1] + 1].rk} :
     \E S \in {Len(want)} :
     IF ~(Range(want) = Range(ne) \cup (IF Len(ne) < e.P THEN Range(extra) ELSE {}) /\ S = Cardinality(Range(want)))
     THEN Clause(e, "C27", "member-list", FALSE) ELSE
     \E gfq \in {PrefixSums([i \in 1..S |-> o.cut[want[i] + 2] - o.cut[want[i] + 1]])} :
     \E ucut \in {UniformCut(Len(o.L), S)} :
     \E nt \in {cs[o.cs].nt} :
     LET Fr(R, i) ==
           /\ R.size = S /\ R.rank = i - 1 /\ R.val = 1
           /\ R.gfq = gfq /\ Len(R.gfp) = S + 1
           /\ \A k \in 1..(S + 1) : R.gfp[k] = FirstPos(o.L, gfq[k], nt)
           /\ R.misc = <<1, gfq[i + 1] - gfq[i], Len(o.L), 1, o.dsz,
                         IF gfq[i + 1] = gfq[i] THEN -1 ELSE o.L[gfq[i] + 1][1]>>
         Dt(R, i) == R.q = LocalOf(o.L, gfq, i - 1)
                     /\ (o.dsz > 0 => R.v = LocalOf(o.V, gfq, i - 1))
         Later(R, i) ==
           /\ R.size2 = S /\ R.rank2 = i - 1 /\ R.val2 = 1 /\ R.gfq2 = ucut
           /\ \A k \in 1..(S + 1) : R.gfp2[k] = FirstPos(o.L, ucut[k], nt)
           /\ R.q2 = LocalOf(o.L, ucut, i - 1)
           /\ (o.dsz > 0 => R.v2 = LocalOf(o.V, ucut, i - 1))
     IN /\ Clause(e, "C27", "members", \A r \in Procs(e) :
              /\ e.R[r].ret = e.R[r].has
              /\ e.R[r].has = IF \E i \in 1..S : want[i] = r - 1 THEN 1 ELSE 0)
        /\ Clause(e, "C27", "rank-map", Len(ne) < e.P /\ e.mode > 0 =>
              /\ \A i \in 1..S : e.R[want[i] + 1].rk = want
              \* those with leaves keep their order, which is the order of the leaves
              /\ SelectSeq(want, LAMBDA r : r \in Range(ne)) = ne
              /\ SelectSeq(want, LAMBDA r : r \in Range(extra)) = extra
              /\ IF e.mode = 1 THEN want = ne \o extra
                 ELSE \A i, j \in 1..S : want[i] \in Range(extra) /\ want[j] \notin Range(e.add) => i < j)
        /\ Clause(e, "C27", "forest", \A i \in 1..S : Fr(e.R[want[i] + 1], i))
        /\ Clause(e, "C27", "leaves-and-data", \A i \in 1..S : Dt(e.R[want[i] + 1], i))
        /\ Clause(e, "C27", "later-partition", \A i \in 1..S : Later(e.R[want[i] + 1], i))

(***************************************************************************)
(* C23: the coarsest leaves between two quadrants; removing overlaps.      *)
(***************************************************************************)
TreeCounts(R) ==
  /\ \A k \in 1..Len(R.pl) : R.pl[k] = Len(SelectSeq(R.o, LAMBDA q : q[2] = k - 1))
  /\ R.ml = (IF R.o = <<>> THEN 0 ELSE LET lv == {R.o[i][2] : i \in 1..Len(R.o)} IN CHOOSE m \in lv : \A x \in lv : x <= m)
RegionOk(R) ==
  LET a == R.ends[1]  b == R.ends[2]  n == Len(R.o) IN
  /\ n >= R.i1 + R.i2
  /\ R.i1 = 1 => R.o[1] = a
  /\ R.i2 = 1 => R.o[n] = b
  /\ LET mid == SubSeq(R.o, 1 + R.i1, n - R.i2)
         B == <<a>> \o mid \o <<b>>
     IN /\ \A i \in 1..(Len(B) - 1) : B[i][1] = B[i + 1][1] /\ Follows(B[i], B[i + 1])
        /\ \A i \in 1..Len(mid) : mid[i][2] > 0 /\ (IsAnc(Parent(mid[i]), a) \/ IsAnc(Parent(mid[i]), b))
DoRegion(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ \A r \in Procs(e) : \E R \in {e.R[r]} :
       /\ Clause(e, "C23", "region-between", RegionOk(R))
       /\ Clause(e, "C23", "region-counters", TreeCounts(R))
       /\ Clause(e, "C23", "region-initialised",
            LET ii == InitCalls(R.cb) IN
            IF e.fl % 2 = 0 THEN ii = <<>>
            ELSE /\ Len(ii) = Len(R.o)
                 /\ \A i \in 1..Len(R.o) : \E k \in 1..Len(ii) :
                      ii[k][2] = R.o[i] /\ (e.dsz > 0 => ii[k][3] = R.ov[i]))
DoLinear(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ \A r \in Procs(e) : \E R \in {e.R[r]} :
     \E keep \in {{i \in 1..Len(R.in) : \A j \in (i + 1)..Len(R.in) : R.in[j] # R.in[i] /\ ~IsAnc(R.in[i], R.in[j])}} :
     \E ks \in {SelectSeq([i \in 1..Len(R.in) |-> i], LAMBDA i : i \in keep)} :
       /\ Clause(e, "C23", "overlaps-removed", R.o = [k \in 1..Len(ks) |-> R.in[ks[k]]])
       /\ Clause(e, "C23", "removed-count", R.ret = Len(R.in) - Len(R.o))
       /\ Clause(e, "C23", "linear-counters", TreeCounts(R))
       /\ Clause(e, "C23", "data-of-survivors", \A i \in 1..Len(R.o) :
            \E j \in 1..Len(R.in) : R.in[j] = R.o[i] /\ R.iv[j] = R.ov[i])

BuildKinds == {"region", "linear", "build", "points", "transfer", "reduce"}
BuildOp(e) ==
  CASE e.k = "build" -> DoBuild(e) [] e.k = "points" -> DoPoints(e)
    [] e.k = "region" -> DoRegion(e) [] e.k = "linear" -> DoLinear(e)
    [] e.k = "transfer" -> DoTransfer(e) [] e.k = "reduce" -> DoReduce(e)
=============================================================================
