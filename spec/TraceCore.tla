------------------------------ MODULE TraceCore -----------------------------
(***************************************************************************)
(* Trace actions of the forest operations.                                 *)
(***************************************************************************)
EXTENDS TraceBase

ToSetOfSeqs(g) == {Range(g[i]) : i \in 1..Len(g)}

ConnOf(e) == MkConn(e.nt, e.ttt, e.ttf, ToSetOfSeqs(e.eg), ToSetOfSeqs(e.cg))

(***************************************************************************)
(* C20 (part): tables of any connectivity are consistent.                  *)
(***************************************************************************)
TablesOk(e) ==
  LET c0 == [nt |-> e.nt, ttt |-> e.ttt, ttf |-> e.ttf] IN
  /\ FaceInvolution(c0)
  /\ e.ttc # <<>> =>
       \A t \in 1..e.nt : \A k \in 1..NC :
         LET g == e.ttc[t][k] IN
         g = -1 \/ \E i \in 1..Len(e.cg[g + 1]) : e.cg[g + 1][i] = <<t - 1, k - 1>>
  /\ \A g \in 1..Len(e.cg) : \A i \in 1..Len(e.cg[g]) :
         e.ttc[e.cg[g][i][1] + 1][e.cg[g][i][2] + 1] = g - 1
  /\ e.tte # <<>> =>
       \A t \in 1..e.nt : \A k \in 1..NE :
         LET g == e.tte[t][k] IN
         g = -1 \/ \E i \in 1..Len(e.eg[g + 1]) :
                      e.eg[g + 1][i][1] = t - 1 /\ e.eg[g + 1][i][2] = k - 1
  /\ \A g \in 1..Len(e.eg) : \A i \in 1..Len(e.eg[g]) :
         e.tte[e.eg[g][i][1] + 1][e.eg[g][i][2] + 1] = g - 1

Step == l' = l + 1
Keep(e) == Step /\ UNCHANGED <<dead, cs, fs>>

DoCase(e) ==
  /\ Step /\ dead' = FALSE /\ cs' = <<>> /\ fs' = <<>>
  /\ aux' = [aux EXCEPT !.grp = e.grp, !.case = e.c,
                        !.gh = <<>>, !.w = <<>>,
                        !.runs = IF e.grp = aux.grp /\ e.grp > 0 THEN aux.runs ELSE <<>>,
                        !.files = IF e.grp = aux.grp /\ e.grp > 0 THEN aux.files ELSE <<>>]

DoConn(e) ==
  /\ Step
  /\ IF FaceInvolution([nt |-> e.nt, ttt |-> e.ttt, ttf |-> e.ttf])
     THEN /\ Clause(e, "C20", "tables-consistent", TablesOk(e))
          /\ cs' = (e.cs :> ConnOf(e)) @@ cs
          /\ dead' = (DIM = 3 /\ Degenerate(cs'[e.cs]))
     ELSE /\ Clause(e, "C20", "face-gluing-involutive", FALSE)
          /\ dead' = TRUE /\ cs' = cs
  /\ UNCHANGED <<fs, aux>>

(***************************************************************************)
(* C07: the cases of one group run the same history on different numbers   *)
(* of processes and under different message timing; the first one is       *)
(* remembered and the others must agree.                                   *)
(***************************************************************************)
SameRun(e, val) ==
  IF aux.grp <= 0 \/ ~Is({"C07"}) THEN UNCHANGED aux
  ELSE LET k == <<aux.grp, e.o>> IN
       IF k \in DOMAIN aux.runs
       THEN /\ Clause(e, "C07", "same-as-other-process-counts", aux.runs[k] = val)
            /\ UNCHANGED aux
       ELSE aux' = [aux EXCEPT !.runs = (k :> val) @@ aux.runs]

\* continue with the logged state when it is a tiling, else give up the case
\* (values are bound by \E over singletons: TLC evaluates those once, while it
\* evaluates definitions local to an action at every reference)
WithPost(e, slot, csl, Cl(_, _)) ==
  \E L \in {PostL(e)} :
  \E c \in {cs[csl]} :
     IF Tiling(L, c.nt)
     THEN /\ StateClauses(e, c, L, CutOf(e))
          /\ \E n \in {Adopt(e, csl, L)} :
             /\ Cl(L, n)
             /\ fs' = (slot :> n) @@ fs
             /\ SameRun(e, <<n.L, n.V>>)
          /\ dead' = FALSE
     ELSE /\ Clause(e, "C01", "leaves-tile-domain", FALSE)
          /\ Clause(e, "C07", "leaves-tile-domain", aux.grp <= 0)
          /\ dead' = TRUE /\ UNCHANGED <<fs, aux>>

\* same per-rank region before and after
SameRegion(o, n) ==
  \A r \in 0..(o.P - 1) :
    LET a == LocalOf(o.L, o.cut, r)  b == LocalOf(n.L, n.cut, r) IN
    /\ (a = <<>>) = (b = <<>>)
    /\ a # <<>> => \A ax \in Axes : a[1][2 + ax] = b[1][2 + ax] /\ a[1][1] = b[1][1]

RevOk(e, o, n, changed) == n.rev = o.rev + (IF changed THEN 1 ELSE 0)

(***************************************************************************)
(* Creation.                                                               *)
(***************************************************************************)
UIdx(q, lev) ==    \* index of the first level-lev descendant in its tree
  LET RECURSIVE G(_, _)
      G(k, acc) == IF k > q[2] THEN acc * NC ^ (lev - q[2])
                   ELSE G(k + 1, acc * NC + CidAt(q, k))
  IN G(1, 0)
NewOk(e, c, lev) ==
  LET n == NC ^ lev
      N == n * c.nt
      cut == UniformCut(N, e.P)
      a(q) == q[1] * n + UIdx(q, lev)
      sz(q) == NC ^ (lev - q[2])
  IN \A r \in Procs(e) :
       LET qs == e.R[r].q  lo == cut[r]  hi == cut[r + 1] IN
       IF lo = hi THEN qs = <<>>
       ELSE /\ qs # <<>>
            /\ \A i \in 1..Len(qs) : qs[i][2] <= lev
            /\ a(qs[1]) = lo /\ a(qs[Len(qs)]) + sz(qs[Len(qs)]) = hi
            /\ \A i \in 1..Len(qs) :
                 IF e.fill = 1 THEN qs[i][2] = lev
                 ELSE \* coarsest, apart from the two ends of the local part of a tree
                      qs[i][2] = 0 \/
                      LET q1(j, m) == qs[j][1] * m
                          p == Parent(qs[i])
                          plo == IF lo > q1(i, n) THEN lo ELSE q1(i, n)
                          phi == IF hi < q1(i, n) + n THEN hi ELSE q1(i, n) + n
                      IN a(p) <= plo \/ a(p) + sz(p) >= phi

DoNew(e) ==
  /\ Step /\ UNCHANGED cs
  /\ LET c == cs[e.cs]
         lev == NewLevel(c.nt, e.P, e.minq, e.minl)
         Cl(L, n) ==
           /\ Clause(e, "C01", "new-level-and-partition", NewOk(e, c, lev))
           /\ Clause(e, "C01", "new-revision", n.rev = 0 /\ n.dsz = e.dsz)
           /\ Clause(e, "C08", "new-init", \A r \in Procs(e) :
                InitOk(e.R[r], Range(e.R[r].q), Range(e.R[r].q), e.fl)
                /\ (e.fl % 2 = 1 => DataOk(e, r, <<>>, <<>>, e.fl)))
     IN WithPost(e, e.s, e.cs, Cl)

(***************************************************************************)
(* Refinement.                                                             *)
(***************************************************************************)
Asks(cb) == SelectSeq(cb, LAMBDA x : x[1] = "a")
RefineAskOk(e, r, S, maxl, rec) ==
  LET as == Asks(e.R[r].cb)
      qs == [i \in 1..Len(as) |-> as[i][3]]
      split == {as[i][3] : i \in {j \in 1..Len(as) : as[j][2] = 1 /\ as[j][3][2] < maxl}}
  IN /\ NoDup(qs)
     /\ RefineMustAsk(S, split, rec, maxl) \subseteq Range(qs)
     /\ Range(qs) \subseteq RefineMayAsk(S, split, rec)
DoRefine(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} : LET
         rec == e.rec = 1
         asksAll == Flat([r \in Procs(e) |-> Asks(e.R[r].cb)])
         split == {asksAll[i][3] : i \in {j \in 1..Len(asksAll) :
                       asksAll[j][2] = 1 /\ asksAll[j][3][2] < e.maxl}}
         Cl(L, n) == \E spl \in {split} :
           /\ Clause(e, "C02", "asked", \A r \in Procs(e) :
                RefineAskOk(e, r, Range(LocalOf(o.L, o.cut, r - 1)), e.maxl, rec))
           /\ Clause(e, "C02", "split-exactly", n.I = RefineInterior(o.I, spl))
           /\ Clause(e, "C02", "partition-region-kept", SameRegion(o, n))
           /\ Clause(e, "C01", "revision-refine", RevOk(e, o, n, Len(n.L) # Len(o.L)))
           /\ Clause(e, "C08", "refine-data", \A r \in Procs(e) :
                DataOk(e, r, LocalOf(o.L, o.cut, r - 1), IF o.dsz > 0 THEN LocalOf(o.V, o.cut, r - 1) ELSE <<>>, e.fl))
           /\ Clause(e, "C08", "refine-init", \A r \in Procs(e) :
                LET old == Range(LocalOf(o.L, o.cut, r - 1))  new == Range(e.R[r].q)
                    sp == n.I \ o.I
                IN InitOk(e.R[r], new \ old,
                          UNION {Children(p) : p \in {x \in sp : \E k \in 0..x[2] : Anc(x, k) \in old}}, e.fl))
           /\ Clause(e, "C08", "refine-replace", \A r \in Procs(e) :
                LET old == Range(LocalOf(o.L, o.cut, r - 1))
                    sp == {x \in n.I \ o.I : \E k \in 0..x[2] : Anc(x, k) \in old}
                IN ReplOk(e.R[r], sp, {}, e.fl))
     IN WithPost(e, e.s, o.cs, Cl)

(***************************************************************************)
(* Coarsening.                                                             *)
(***************************************************************************)
Fams(cb) == SelectSeq(cb, LAMBDA x : x[1] = "c")
Orphs(cb) == SelectSeq(cb, LAMBDA x : x[1] = "o")
Accepted(cb) == LET f == Fams(cb) IN {Parent(f[i][3][1]) : i \in {j \in 1..Len(f) : f[j][2] = 1}}
CoarsenAskOk(e, r, I, S, rec, orph) ==
  LET f == Fams(e.R[r].cb)
      acc == Accepted(e.R[r].cb)
      offered == CoarsenOffered(I, S, acc, rec)
      ps == [i \in 1..Len(f) |-> Parent(f[i][3][1])]
      oo == Orphs(e.R[r].cb)
      os == [i \in 1..Len(oo) |-> oo[i][2]]
      infam == UNION {Children(p) : p \in offered}
  IN /\ \A i \in 1..Len(f) : f[i][3][1][2] > 0 /\ f[i][3] = ChildSeq(ps[i])
     /\ NoDup(ps) /\ Range(ps) = offered
     /\ IF ~orph THEN oo = <<>>
        ELSE IF rec THEN (S \ infam) \subseteq Range(os)
                         /\ Range(os) \subseteq (S \cup acc)
        ELSE \* every leaf heads exactly one call, unless it is a further member
             \* of an accepted family (the library's own users rely on it)
             LET heads == [i \in 1..Len(f) |-> f[i][3][1]] \o os
             IN NoDup(heads)
                /\ Range(heads) = S \ UNION {Children(p) \ {Child(p, 0)} : p \in acc}
DoCoarsen(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} : LET
         rec == e.rec = 1
         acc == UNION {Accepted(e.R[r].cb) : r \in Procs(e)}
         Cl(L, n) == \E ac \in {acc} :
           /\ Clause(e, "C03", "offered", \A r \in Procs(e) :
                CoarsenAskOk(e, r, o.I, Range(LocalOf(o.L, o.cut, r - 1)), rec, e.orph = 1))
           /\ Clause(e, "C03", "merged-exactly", n.I = o.I \ ac)
           /\ Clause(e, "C03", "partition-region-kept", SameRegion(o, n))
           /\ Clause(e, "C01", "revision-coarsen", RevOk(e, o, n, Len(n.L) # Len(o.L)))
           /\ Clause(e, "C08", "coarsen-data", \A r \in Procs(e) :
                DataOk(e, r, LocalOf(o.L, o.cut, r - 1), IF o.dsz > 0 THEN LocalOf(o.V, o.cut, r - 1) ELSE <<>>, e.fl))
           /\ Clause(e, "C08", "coarsen-init", \A r \in Procs(e) :
                LET a == Accepted(e.R[r].cb) IN InitOk(e.R[r], a, a, e.fl))
           /\ Clause(e, "C08", "coarsen-replace", \A r \in Procs(e) :
                ReplOk(e.R[r], {}, Accepted(e.R[r].cb), e.fl))
     IN WithPost(e, e.s, o.cs, Cl)

(***************************************************************************)
(* Balance.                                                                *)
(***************************************************************************)
DoBalance(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} : \E c \in {cs[o.cs]} :
     LET Cl(L, n) ==
           /\ Clause(e, "C04", "two-to-one", Balanced(c, n.I, e.kind)
                \/ (aux.grp >= 0 /\ ~RegularLinks(c, e.kind) /\ ~NoSelfContact(c)))
           /\ Clause(e, "C04", "coarsest", BalanceOk(c, o.I, n.I, e.kind)
                \/ (aux.grp >= 0 /\ ~RegularLinks(c, e.kind) /\ ~NoSelfContact(c)))
           /\ Clause(e, "C04", "partition-region-kept", SameRegion(o, n))
           /\ Clause(e, "C01", "revision-balance", RevOk(e, o, n, Len(n.L) # Len(o.L)))
           /\ Clause(e, "C08", "balance-data", \A r \in Procs(e) :
                DataOk(e, r, LocalOf(o.L, o.cut, r - 1), IF o.dsz > 0 THEN LocalOf(o.V, o.cut, r - 1) ELSE <<>>, e.fl))
           /\ Clause(e, "C08", "balance-init", \A r \in Procs(e) :
                LET old == Range(LocalOf(o.L, o.cut, r - 1))  new == Range(e.R[r].q)
                    sp == {x \in n.I \ o.I : \E k \in 0..x[2] : Anc(x, k) \in old}
                IN InitOk(e.R[r], new \ old, UNION {Children(p) : p \in sp}, e.fl))
           /\ Clause(e, "C08", "balance-replace", \A r \in Procs(e) :
                LET old == Range(LocalOf(o.L, o.cut, r - 1))
                    sp == {x \in n.I \ o.I : \E k \in 0..x[2] : Anc(x, k) \in old}
                IN ReplOk(e.R[r], sp, {}, e.fl))
     IN WithPost(e, e.s, o.cs, Cl)

(***************************************************************************)
(* Partition.                                                              *)
(***************************************************************************)
Ws(cb) == SelectSeq(cb, LAMBDA x : x[1] = "w")
DoPartition(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} :
     \E wl \in {Flat([r \in Procs(e) |-> Ws(e.R[r].cb)])} :
     \E w \in {[i \in 1..Len(wl) |-> wl[i][2]]} :
     \E allzero \in {\A i \in 1..Len(w) : w[i] = 0} :
     \E base \in {IF e.P = 1 THEN o.cut
                   ELSE IF e.wk = 0 THEN UniformCut(Len(o.L), e.P)
                   ELSE IF allzero THEN o.cut
                   ELSE WeightCut(w, e.wscale, e.P)} :
     \E un \in {e.P = 1 \/ (e.wk = 1 /\ allzero)} :
     \E wnt \in {IF e.pfc = 1 /\ ~un THEN PfcCut(o.L, base) ELSE base} :
     LET
         Cl(L, n) ==
           /\ Clause(e, "C05", "sequence-kept", L = o.L)
           /\ Clause(e, "C05", "weights-asked-once-in-order", \A r \in Procs(e) :
                LET x == Ws(e.R[r].cb) IN
                [i \in 1..Len(x) |-> x[i][3]]
                  = IF e.P = 1 \/ e.wk = 0 THEN <<>> ELSE LocalOf(o.L, o.cut, r - 1))
           /\ Clause(e, IF e.pfc = 1 THEN "C06" ELSE "C05", "cuts", n.cut = wnt)
           /\ Clause(e, "C05", "shipped-count",
                \A r \in Procs(e) : e.R[r].ret \in {-1, Shipped(o.cut, n.cut)})
           /\ Clause(e, "C06", "no-family-split", (e.pfc = 1 /\ ~un) =>
                \A s \in FamilySpans(L) : \A i \in 1..(e.P + 1) : ~(s[1] < n.cut[i] /\ n.cut[i] <= s[2]))
           /\ Clause(e, "C01", "revision-partition", RevOk(e, o, n, n.cut # o.cut))
           /\ Clause(e, "C08", "partition-data", o.dsz > 0 => n.V = o.V)
     IN WithPost(e, e.s, o.cs, Cl)

DoGiven(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} :
     LET Cl(L, n) ==
           /\ Clause(e, "C05", "given-sequence-kept", L = o.L)
           /\ Clause(e, "C05", "given-cuts", n.cut = PrefixSums(e.num))
           /\ Clause(e, "C05", "given-shipped", \A r \in Procs(e) : e.R[r].ret = Shipped(o.cut, n.cut))
           /\ Clause(e, "C08", "given-data", o.dsz > 0 => n.V = o.V)
     IN WithPost(e, e.s, o.cs, Cl)

(***************************************************************************)
(* Copy, data reset, application writes, equality, checksums.              *)
(***************************************************************************)
DoCopy(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} :
     LET Cl(L, n) ==
           /\ Clause(e, "C19", "copy-leaves", L = o.L /\ n.cut = o.cut)
           /\ Clause(e, "C19", "copy-data", IF e.cd = 1 THEN n.dsz = o.dsz /\ n.V = o.V ELSE n.dsz = 0)
           /\ Clause(e, "C01", "revision-copy", n.rev = 0)
     IN WithPost(e, e.d, o.cs, Cl)
DoReset(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} :
     LET Cl(L, n) ==
           /\ Clause(e, "C01", "reset-keeps-leaves", L = o.L /\ n.cut = o.cut /\ n.dsz = e.dsz /\ n.rev = o.rev)
           /\ Clause(e, "C08", "reset-init", \A r \in Procs(e) :
                InitOk(e.R[r], Range(e.R[r].q), Range(e.R[r].q), e.fl)
                /\ (e.fl % 2 = 1 => DataOk(e, r, <<>>, <<>>, e.fl)))
     IN WithPost(e, e.s, o.cs, Cl)
DoModify(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} :
     LET Cl(L, n) == Clause(e, "C19", "modify-keeps-leaves", L = o.L /\ n.cut = o.cut)
     IN WithPost(e, e.s, o.cs, Cl)
\* the library compares, on every process, what that process stores
LocallyEqual(a, b, r, cd) ==
  LET la == LocalOf(a.L, a.cut, r)  lb == LocalOf(b.L, b.cut, r) IN
  /\ a.cut = b.cut /\ la = lb
  /\ \A i \in 1..(a.P + 1) : FirstPos(a.L, a.cut[i], 0) = FirstPos(b.L, b.cut[i], 0)
  /\ (cd = 1 => (a.dsz = b.dsz /\ (a.dsz > 0 => LocalOf(a.V, a.cut, r) = LocalOf(b.V, b.cut, r))))
DoEqual(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ \E a \in {fs[e.s]} : \E b \in {fs[e.d]} :
     Clause(e, "C19", "equality", \A r \in Procs(e) :
              e.R[r].ret = IF LocallyEqual(a, b, r - 1, e.cd) THEN 1 ELSE 0)
\* checksums: equal leaves <=> equal checksum, remembered over the whole trace
DoCksum(e) ==
  /\ Keep(e)
  /\ \E o \in {fs[e.s]} : \E m \in {aux.ck} : \E v \in {e.R[1].ck} :
     \E same \in {{x \in m : x[1] = o.L}} :
        /\ Clause(e, "C19", "checksum-of-leaves-only", \A x \in same : x[2] = v)
        /\ IF Is({"C19"}) THEN aux' = [aux EXCEPT !.ck = m \cup {<<o.L, v>>}] ELSE SameRun(e, v)
DoValid(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ \E o \in {fs[e.s]} : \E c \in {cs[o.cs]} :
     Is({"C04"}) =>
     \E b \in {[k \in 1..DIM |-> IF RegularLinks(c, k)
                                 THEN (IF Balanced(c, o.I, k) THEN 1 ELSE 0) ELSE -1]} :
     Clause(e, "C04", "balance-test", \A r \in Procs(e) :
          b[1] \in {-1, e.R[r].b1} /\ b[2] \in {-1, e.R[r].b2} /\ (DIM = 2 \/ b[DIM] \in {-1, e.R[r].b3}))
  /\ Clause(e, "C01", "self-check", \A r \in Procs(e) : e.R[r].ret = 1)

\* the state which the forest state machine (ForestSim) predicts; once the
\* real forest differs, later predictions say nothing
DoExpect(e) ==
  /\ Step /\ UNCHANGED <<cs, fs, aux>>
  /\ \E o \in {fs[e.s]} : \E ok \in {o.L = e.L /\ o.cut = e.cut} :
       Clause(e, e.p, "state-predicted-by-specification", ok) /\ dead' = ~ok

Core(e) ==
  CASE e.k = "conn" -> DoConn(e)
    [] e.k = "new" -> DoNew(e)
    [] e.k = "refine" -> DoRefine(e)
    [] e.k = "coarsen" -> DoCoarsen(e)
    [] e.k = "balance" -> DoBalance(e)
    [] e.k = "partition" -> DoPartition(e)
    [] e.k = "given" -> DoGiven(e)
    [] e.k = "copy" -> DoCopy(e)
    [] e.k = "reset" -> DoReset(e)
    [] e.k = "modify" -> DoModify(e)
    [] e.k = "equal" -> DoEqual(e)
    [] e.k = "cksum" -> DoCksum(e)
    [] e.k = "valid" -> DoValid(e)
    [] e.k = "expect" -> DoExpect(e)
CoreKinds == {"conn", "new", "refine", "coarsen", "balance", "partition", "given",
              "copy", "reset", "modify", "equal", "cksum", "valid", "expect"}

TraceInit ==
  /\ l = 1 /\ dead = TRUE /\ cs = <<>> /\ fs = <<>>
  /\ aux = [grp |-> 0, case |-> 0, ck |-> {}, runs |-> <<>>, gh |-> <<>>, w |-> <<>>, files |-> <<>>]
=============================================================================
