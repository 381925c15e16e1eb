---------------------------- MODULE TraceSearch -----------------------------
(***************************************************************************)
(* Searches (C16, C17) and ownership queries (C17).  A search is a         *)
(* recursion whose course is determined by the leaves, the partition and   *)
(* the answers of the callbacks.  The log of the callbacks of one process  *)
(* is consumed by the expected recursion: every operator below takes the   *)
(* position of the next log entry and returns the position after the       *)
(* entries of its branch, or 0 when an entry is not the expected one.      *)
(*   <<"q" | "z", quadrant, local number, pfirst, plast, -1, answer>>      *)
(*   <<"p", quadrant, local number, pfirst, plast, point, answer>>         *)
(*   <<"r", quadrants, indices in, indices out, answer>>                   *)
(***************************************************************************)
EXTENDS TraceMesh

\* x = [log, loc (leaves), cut, rank, m (mode), q, p, post, re, z]
\* expected entry at pos; n = local number or -1
Ent(x, pos, k, v, n, pf, pl, pt) ==
  pos > 0 /\ pos <= Len(x.log) /\
  LET y == x.log[pos] IN
  y[1] = k /\ y[2] = v /\ y[4] = pf /\ y[5] = pl /\ y[6] = pt
  /\ (IF n < 0 THEN y[3] < 0 ELSE y[3] = n)

\* the calls for node v: [pos, go (continue into the children), act, in
\* (the quadrant was entered, a closing call is due)]
Visit(x, v, n, pf, pl, act, pos) ==
  LET p1 == IF x.q THEN pos + 1 ELSE pos
      okq == IF x.q THEN Ent(x, pos, "q", v, n, pf, pl, -1) ELSE TRUE
      aq == IF x.q THEN x.log[pos][7] = 1 ELSE TRUE
      np == IF x.p THEN Len(act) ELSE 0
      okp == \A i \in 1..np : Ent(x, p1 + i - 1, "p", v, n, pf, pl, act[i])
      surv == SelectSeq([i \in 1..np |-> <<act[i], x.log[p1 + i - 1][7]>>], LAMBDA s : s[2] = 1)
      p2 == p1 + np
      w == x.post /\ x.q /\ x.p
      okw == IF w THEN Ent(x, p2, "q", v, n, pf, pl, -1) ELSE TRUE
      aw == IF w THEN x.log[p2][7] = 1 ELSE TRUE
  IN IF pos = 0 \/ ~okq THEN [pos |-> 0, go |-> FALSE, act |-> <<>>, in |-> FALSE]
     ELSE IF ~aq THEN [pos |-> p1, go |-> FALSE, act |-> <<>>, in |-> FALSE]
     ELSE IF ~okp \/ ~okw THEN [pos |-> 0, go |-> FALSE, act |-> <<>>, in |-> FALSE]
     ELSE [pos |-> IF w THEN p2 + 1 ELSE p2, go |-> aw /\ (~x.p \/ surv # <<>>),
           act |-> [i \in 1..Len(surv) |-> surv[i][1]], in |-> TRUE]

\* first leaf (1-based) of lo..hi+1 that lies in child i or later of v
Bound(x, v, lo, hi, i) ==
  lo + Cardinality({k \in lo..hi : CidAt(x.loc[k], v[2] + 1) < i})
NCA(a, b) == CHOOSE v \in {Anc(a, k) : k \in 0..a[2]} :
               IsAncEq(v, b) /\ \A k \in (v[2] + 1)..a[2] : ~IsAncEq(Anc(a, k), b)

\* search through the leaves lo..hi of one process below q
RECURSIVE TravLocal(_, _, _, _, _, _)
TravLocal(x, q, lo, hi, act, pos) ==
  IF pos = 0 \/ hi < lo \/ (x.p /\ act = <<>>) THEN pos
  ELSE IF x.m # 2 /\ (pos > Len(x.log) \/ x.log[pos][1] = "r") THEN 0
  ELSE
  LET v == IF x.m = 2 THEN q ELSE x.log[pos][2]
      a == x.loc[lo]
      b == x.loc[hi]
      okv == IF x.m = 2 THEN TRUE
             ELSE IF x.m = 3 THEN v = IF lo = hi THEN a ELSE NCA(a, b)
             ELSE IsAncEq(q, v) /\ IsAncEq(v, a) /\ IsAncEq(v, b)
      leaf == v = a
      s == Visit(x, v, IF leaf THEN lo - 1 ELSE -1, -1, -1, act, pos)
      ids == SelectSeq([i \in 1..NC |-> i - 1], LAMBDA i : Bound(x, v, lo, hi, i) < Bound(x, v, lo, hi, i + 1))
      ask == x.re /\ lo < hi
      y == x.log[s.pos]
      okr == ask => /\ s.pos <= Len(x.log) /\ y[1] = "r"
                    /\ y[2] = [i \in 1..NC |-> Child(v, i - 1)] /\ y[3] = ids
      order == IF ask THEN (IF y[5] = 1 THEN y[4] ELSE <<>>) ELSE ids
      rec == IF s.pos = 0 THEN 0
             ELSE IF leaf \/ ~s.go THEN s.pos
             ELSE IF ~okr THEN 0
             ELSE FoldLeft(LAMBDA p, i : TravLocal(x, Child(v, i), Bound(x, v, lo, hi, i),
                                                   Bound(x, v, lo, hi, i + 1) - 1, s.act, p),
                           IF ask THEN s.pos + 1 ELSE s.pos, order)
  IN IF ~okv THEN 0
     ELSE IF rec # 0 /\ x.z /\ s.in
     THEN (IF Ent(x, rec, "z", v, IF leaf THEN lo - 1 ELSE -1, -1, -1, -1) THEN rec + 1 ELSE 0)
     ELSE rec

\* search through the partition: leaves lo..hi of the whole forest below q
RECURSIVE TravPart(_, _, _, _, _, _)
TravPart(x, q, lo, hi, act, pos) ==
  IF pos = 0 \/ (x.p /\ act = <<>>) THEN pos
  ELSE
  LET pf == OwnerOf(x.cut, lo - 1)
      pl == OwnerOf(x.cut, hi - 1)
      mine == x.m = 7 /\ pf = x.rank /\ pl = x.rank
      leaf == lo = hi
      s == Visit(x, q, IF mine /\ leaf THEN lo - 1 - x.cut[x.rank + 1] ELSE -1, pf, pl, act, pos)
      deeper == s.go /\ (pf < pl \/ (mine /\ ~leaf))
  IN IF s.pos = 0 \/ ~deeper THEN s.pos
     ELSE FoldLeft(LAMBDA p, i : TravPart(x, Child(q, i), Bound(x, q, lo, hi, i),
                                          Bound(x, q, lo, hi, i + 1) - 1, s.act, p),
                   s.pos, [i \in 1..NC |-> i - 1])

SearchOk(e, r, f, nt) ==
  LET fl(b) == (e.fl \div b) % 2 = 1
      reo == e.m \in {2, 3}
      glob == e.m >= 4
      x == [log |-> e.R[r].cb, loc |-> IF glob THEN f.L ELSE LocalOf(f.L, f.cut, r - 1),
            cut |-> f.cut, rank |-> r - 1, m |-> e.m, q |-> fl(1), p |-> fl(2),
            post |-> fl(4) /\ e.m \notin {1, 2, 3}, re |-> fl(8) /\ reo, z |-> fl(16) /\ reo]
      n == Len(x.loc)
      trees == IF n = 0 THEN <<>>
               ELSE [i \in 1..(x.loc[n][1] - x.loc[1][1] + 1) |-> x.loc[1][1] + i - 1]
      tlo(t) == 1 + Cardinality({k \in 1..n : x.loc[k][1] < t})
      thi(t) == Cardinality({k \in 1..n : x.loc[k][1] <= t})
      all == [i \in 1..e.np |-> i - 1]
      y == x.log[1]
      ord == IF ~x.re THEN trees
             ELSE IF y[5] = 0 THEN <<>> ELSE [i \in 1..Len(y[4]) |-> trees[y[4][i] + 1]]
      okr == x.re => /\ Len(x.log) >= 1 /\ y[1] = "r"
                     /\ y[2] = [i \in 1..Len(trees) |-> RootQ(trees[i])]
                     /\ y[3] = [i \in 1..Len(trees) |-> i - 1]
  IN IF n = 0 \/ (~x.q /\ ~x.p /\ ~x.z) THEN x.log = <<>>
     ELSE /\ okr
          /\ FoldLeft(LAMBDA p, t : IF glob THEN TravPart(x, RootQ(t), tlo(t), thi(t), all, p)
                                    ELSE TravLocal(x, RootQ(t), tlo(t), thi(t), all, p),
                      IF x.re THEN 2 ELSE 1, ord) = Len(x.log) + 1

(***************************************************************************)
(* Queries on ownership and positions.                                     *)
(***************************************************************************)
\* 1-based number of the leaf that contains the first / last position of q
LeafAt(L, q) == Cardinality({k \in 1..Len(L) : QCmp(L[k], FirstDesc(q, QMAXL)) <= 0})
LeafAtEnd(L, q) == Cardinality({k \in 1..Len(L) : QCmp(L[k], LastDesc(q, QMAXL)) <= 0})

\* boundary pieces of a touched by the quadrant v within a
TouchF(a, v, f) == IF f % 2 = 0 THEN v[3 + (f \div 2)] = a[3 + (f \div 2)]
                   ELSE v[3 + (f \div 2)] + H(v) = a[3 + (f \div 2)] + H(a)
NPieces == NF + NE + NC
PieceFaces(p) == IF p < NF THEN {p}
                 ELSE IF p < NF + NE THEN EFaces[p - NF] ELSE CFaces[p - NF - NE]
TouchSet(a, v) == {p \in 0..(NPieces - 1) : \A f \in PieceFaces(p) : TouchF(a, v, f)}
\* pieces of a touched by the atoms lq..uq within v; stops early where v
\* has no piece
RECURSIVE RangeTouch(_, _, _, _)
RangeTouch(a, v, lq, uq) ==
  LET fd == FirstDesc(v, QMAXL)
      ld == LastDesc(v, QMAXL)
  IN IF TouchSet(a, v) = {} \/ QCmp(ld, lq) < 0 \/ QCmp(fd, uq) > 0 THEN {}
     ELSE IF QCmp(lq, fd) <= 0 /\ QCmp(ld, uq) <= 0 THEN TouchSet(a, v)
     ELSE UNION {RangeTouch(a, w, lq, uq) : w \in Children(v)}

OwnQueryOk(x, r, f, nt) ==
  LET P == Len(f.cut) - 1
      L == f.L
      own(q) == OwnerOf(f.cut, LeafAt(L, q) - 1)
      ownEnd(q) == OwnerOf(f.cut, LeafAtEnd(L, q) - 1)
      loc == LocalOf(L, f.cut, r - 1)
  IN CASE x[1] = "fo" -> x[4] = own(x[2])
       [] x[1] = "io" -> /\ x[4] = (IF own(x[2]) = x[3] THEN 1 ELSE 0)
                         /\ x[5] = x[4]
       [] x[1] = "ic" -> x[4] = IF own(x[2]) = x[3] /\ ownEnd(x[2]) = x[3] THEN 1 ELSE 0
       [] x[1] = "ie" -> LET z == IF f.cut[x[2] + 1] = f.cut[x[2] + 2] THEN 1 ELSE 0
                         IN x[3] = z /\ x[4] = z /\ x[5] = z
       [] x[1] = "bs" -> x[3] = OwnerOf(f.cut, x[2])
       [] x[1] = "gf" -> x[4] = UniformCut(x[2], x[3])
       [] x[1] = "lh" ->
            IF loc = <<>> THEN TRUE
            ELSE LET T == SelectSeq(loc, LAMBDA q : q[1] = x[2][1])
                     ge == {k \in 1..Len(T) : QCmp(T[k], x[2]) >= 0}
                     le == {k \in 1..Len(T) : QCmp(T[k], x[2]) <= 0}
                     lo == IF ge = {} THEN -1 ELSE Len(T) - Cardinality(ge)
                     hi == Cardinality(le) - 1
                 IN x[3] = lo /\ x[4] = hi /\ x[5] = lo /\ x[6] = hi
       [] x[1] = "qc" ->
            IF Len(x) = 2 THEN loc = <<>>
            ELSE /\ x[3] = loc[x[2] + 1] /\ x[5] = 1
                 /\ x[4] = Cardinality({k \in 1..x[2] : loc[k][1] = x[3][1]})
       [] x[1] = "sa" ->
            IF Len(x) = 2 THEN TRUE
            ELSE LET in == SelectSeq(loc, LAMBDA q : IsAnc(x[2], q))
                 IN x[4] = [i \in 1..(NC + 1) |->
                      Cardinality({k \in 1..Len(in) : CidAt(in[k], x[2][2] + 1) < i - 1})]
       [] x[1] = "rb" ->
            LET a == Anc(x[2], x[5])
                lq == IF x[4] % 2 = 1 THEN FirstDesc(a, QMAXL) ELSE x[2]
                uq == IF x[4] >= 2 THEN LastDesc(a, QMAXL) ELSE x[3]
                want == RangeTouch(a, a, lq, uq)
            IN /\ x[7] = [i \in 1..NPieces |-> IF (i - 1) \in want THEN 1 ELSE 0]
               /\ x[6] = FoldLeft(LAMBDA s, i : s + (IF (i - 1) \in want THEN Pow2[i - 1] ELSE 0),
                                  0, [i \in 1..NPieces |-> i])
       [] x[1] = "fp" ->
            LET lt(v) == Cardinality({k \in 1..Len(x[2]) : x[2][k] < v})
            IN /\ lt(x[3]) < Len(x[2]) => x[5] = lt(x[3])
               /\ lt(x[4]) < Len(x[2]) => x[6] = lt(x[4])
       [] OTHER -> FALSE

DoSearch(e) ==
  \E f \in {fs[e.s]} : \E c \in {cs[f.cs]} :
    /\ LET pid == IF e.m <= 3 THEN "C16" ELSE "C17" IN
       /\ Clause(e, pid, "search-arguments", \A r \in Procs(e) : e.R[r].bad = 0)
       /\ Clause(e, pid, "search-calls", \A r \in Procs(e) : SearchOk(e, r, f, c.nt))
    /\ Step /\ UNCHANGED <<dead, cs, fs, aux>>

DoPquery(e) ==
  \E f \in {fs[e.s]} : \E c \in {cs[f.cs]} :
    /\ Clause(e, "C17", "count-pertree", \A r \in Procs(e) :
         e.R[r].pt = [t \in 1..(c.nt + 1) |-> Cardinality({k \in 1..Len(f.L) : f.L[k][1] < t - 1})])
    /\ Clause(e, "C17", "query-result", \A r \in Procs(e) : \A i \in 1..Len(e.R[r].cb) :
         OwnQueryOk(e.R[r].cb[i], r, f, c.nt))
    /\ Step /\ UNCHANGED <<dead, cs, fs, aux>>

SearchKinds == {"search", "pquery"}
SearchOp(e) == CASE e.k = "search" -> DoSearch(e)
                 [] e.k = "pquery" -> DoPquery(e)
=============================================================================
