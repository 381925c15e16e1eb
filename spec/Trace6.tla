------------------------------- MODULE Trace6 -------------------------------
(***************************************************************************)
(* Forests of columns (p6est, C28).  A column forest is a two-dimensional  *)
(* forest whose every leaf carries a stack of layers <<z, level, value>>.  *)
(* The two-dimensional part lives in fs under the slot number + 100 and    *)
(* is judged by the clauses of the forest (C01, taken over by C28); the    *)
(* stacks, in the order of the columns, live in aux.w under the same       *)
(* number.  A cell <<tree, level, x, y, z, vertical level>> names one      *)
(* layer of one column.                                                    *)
(***************************************************************************)
EXTENDS TraceVtk

K6(s) == 100 + s
Layer(y) == <<y[1], y[2]>>
C6(q, y) == <<q[1], q[2], q[3], q[4], y[1], y[2]>>
CellsQ(q, col) == [i \in 1..Len(col) |-> C6(q, col[i])]
Cells(L, S) == Flat([i \in 1..Len(L) |-> CellsQ(L[i], S[i])])
Vals(S) == Flat([i \in 1..Len(S) |-> [j \in 1..Len(S[i]) |-> S[i][j][3]]])
Shape(S) == [i \in 1..Len(S) |-> [j \in 1..Len(S[i]) |-> Layer(S[i][j])]]

\* the layers of a column fill the vertical extent without gap or overlap
StackOk(col, root) ==
  /\ col # <<>>
  /\ \A i \in 1..Len(col) :
       /\ col[i][2] >= 0 /\ col[i][2] <= QMAXL
       /\ col[i][1] >= 0 /\ (col[i][1] % Hl(col[i][2])) = 0
       /\ col[i][1] <= root - Hl(col[i][2])
       /\ col[i][1] = (IF i = 1 THEN 0 ELSE col[i - 1][1] + Hl(col[i - 1][2]))
  /\ col[Len(col)][1] + Hl(col[Len(col)][2]) = root

\* vertical ancestors; a layer is identified by <<z, level>>
LAnc(y, k) == <<y[1] - (y[1] % Hl(k)), k>>
LPar(y) == LAnc(y, y[2] - 1)
LKid(y, i) == <<y[1] + i * Hl(y[2] + 1), y[2] + 1>>
LWithin(x, y) == x[2] >= y[2] /\ LAnc(x, y[2]) = y       \* x equals or lies below y
LInt(Y) == UNION {{LAnc(y, k) : k \in 0..(y[2] - 1)} : y \in Y}
CAnc(c, k) == <<c[1], c[2], c[3], c[4], c[5] - (c[5] % Hl(k)), k>>
CPar(c) == CAnc(c, c[6] - 1)
CKid(c, i) == <<c[1], c[2], c[3], c[4], c[5] + i * Hl(c[6] + 1), c[6] + 1>>
CKids(c) == <<CKid(c, 0), CKid(c, 1)>>
CQ(c) == <<c[1], c[2], c[3], c[4]>>
CInt(C) == UNION {{CAnc(c, k) : k \in 0..(c[6] - 1)} : c \in C}

LayersR(e, r) == e.R[r].ly
StacksOf(e) == Flat([r \in Procs(e) |-> e.R[r].ly])
LCut(L, S, cut) == LET W == PrefixSums([i \in 1..Len(S) |-> Len(S[i])])
                   IN [i \in 1..Len(cut) |-> W[cut[i] + 1]]
\* one process of the line as seen by the clauses on data and callbacks
R6(e, r) == [q |-> Cells(e.R[r].q, e.R[r].ly), v |-> Vals(e.R[r].ly),
             dsz |-> e.R[r].dsz6, cb |-> e.R[r].cb]
E6(e) == [R |-> [r \in Procs(e) |-> R6(e, r)]]
LocC(o, w, r) == Cells(LocalOf(o.L, o.cut, r), LocalOf(w.S, o.cut, r))
LocV(o, w, r) == Vals(LocalOf(w.S, o.cut, r))

\* histories in slot 0 are compared over the process counts of a group
\* state clauses and adoption; Cl(n, S) are the clauses of the operation,
\* root and dsz what the operation requires of the record
HPost(e, key, csl, root, dsz, bal, Cl(_, _)) ==
  \E L \in {PostL(e)} : \E c \in {cs[csl]} : \E S \in {StacksOf(e)} :
     IF Tiling(L, c.nt) /\ Len(S) = Len(L)
        /\ (\A r \in Procs(e) : Len(e.R[r].ly) = Len(e.R[r].q) /\ Len(e.R[r].rg) = Len(e.R[r].q))
        /\ (\A i \in 1..Len(S) : StackOk(S[i], root))
     THEN /\ StateClauses(e, c, L, CutOf(e))
          /\ \E n \in {Adopt(e, csl, L)} :
             /\ Clause(e, "C28", "vertical-extent", e.root = root)
             /\ Clause(e, "C28", "layer-counts",
                  /\ e.gfl = LCut(L, S, n.cut)
                  /\ \A r \in Procs(e) : /\ e.R[r].sameg = 1
                                         /\ e.R[r].nl = e.gfl[r + 1] - e.gfl[r]
                                         /\ e.R[r].rg = SubSeq(PrefixSums([i \in 1..Len(e.R[r].ly) |-> Len(e.R[r].ly[i])]), 1, Len(e.R[r].ly)))
             /\ Clause(e, "C28", "data-size", \A r \in Procs(e) : e.R[r].dsz6 = dsz /\ e.R[r].dsz = 0)
             /\ Clause(e, "C28", "user-pointers", \A r \in Procs(e) : e.R[r].up = 1 /\ e.R[r].cup = 1)
             /\ Cl(n, S)
             /\ fs' = (key :> n) @@ fs
             /\ \E k \in {<<"p6", aux.grp, e.o>>} :
                \E v \in {<<n.L, Shape(S)>>} :
                \E ru \in {IF aux.grp > 0 /\ key = K6(0) /\ k \notin DOMAIN aux.runs THEN (k :> v) @@ aux.runs ELSE aux.runs} :
                   /\ Clause(e, "C28", "same-as-other-process-counts",
                             IF aux.grp > 0 /\ key = K6(0) THEN ru[k] = v ELSE TRUE)
                   /\ aux' = [aux EXCEPT !.runs = ru,
                                !.w = (key :> [S |-> S, dsz |-> dsz, root |-> root, bal |-> bal]) @@ aux.w]
          /\ dead' = FALSE
     ELSE /\ Clause(e, "C28", "columns-are-gap-free-stacks", FALSE)
          /\ dead' = TRUE /\ UNCHANGED <<fs, aux>>

(***************************************************************************)
(* Creation.                                                               *)
(***************************************************************************)
LogZ(n) == CHOOSE k \in 0..20 : Pow2[k] >= n /\ (k = 0 \/ Pow2[k - 1] < n)
Max2(a, b) == IF a > b THEN a ELSE b
HNewData(e) ==
  Clause(e, "C28", "new-init", \A r \in Procs(e) :
     LET x == R6(e, r) IN
     /\ InitOk(x, Range(x.q), Range(x.q), e.fl % 2)
     /\ (e.fl % 2 = 1 => DataOk(E6(e), r, <<>>, <<>>, 1)))
DoHNew(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E c \in {cs[e.cs]} :
     \E lz \in {LogZ(e.zroot)} :
     \E mz \in {Max2(e.minz, lz)} :
     LET per == e.zroot * Pow2[mz - lz]
         lev == NewLevel(c.nt, e.P, e.minq \div per, e.minl)
         Cl(n, S) ==
           /\ Clause(e, "C28", "new-columns", NewOk(e, c, lev) /\ n.rev = 0)
           /\ Clause(e, "C28", "new-layers", \A i \in 1..Len(S) :
                Len(S[i]) = per /\ \A j \in 1..per : S[i][j][2] = mz)
           /\ HNewData(e)
     IN HPost(e, K6(e.s), e.cs, e.zroot * Hl(lz), e.dsz, <<>>, Cl)
DoHFrom(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s2]} : \E mz \in {Max2(e.minz, 0)} :
     LET Cl(n, S) ==
           /\ Clause(e, "C28", "from-columns", n.L = o.L /\ n.cut = o.cut)
           /\ Clause(e, "C28", "from-layers", \A i \in 1..Len(S) :
                Len(S[i]) = Pow2[mz] /\ \A j \in 1..Len(S[i]) : S[i][j][2] = mz)
           /\ HNewData(e)
     IN HPost(e, K6(e.s), e.cs, ROOT, e.dsz, <<>>, Cl)

(***************************************************************************)
(* Refinement and coarsening of columns.                                   *)
(***************************************************************************)
AsLeafOver(S, p) == CHOOSE k \in 0..p[2] : Anc(p, k) \in S
\* stacks of a process as a function of its columns
StackMap(L, S) == [q \in Range(L) |-> Shape(S)[CHOOSE i \in 1..Len(L) : L[i] = q]]
Inherited(m, p) == m[Anc(p, AsLeafOver(DOMAIN m, p))]

HData(e, o, w, name) ==
  Clause(e, "C28", name, \A r \in Procs(e) :
     DataOk(E6(e), r, LocC(o, w, r - 1), IF w.dsz > 0 THEN LocV(o, w, r - 1) ELSE <<>>, e.fl))
\* replacements of splitting the columns of sp, whose stacks are inherited
ColSplits(m, sp) ==
  UNION {{<<<<C6(p, y)>>, [i \in 1..NC |-> C6(Child(p, i - 1), y)]>> : y \in Range(Inherited(m, p))} : p \in sp}
LaySplits(sp) == {<<<<c>>, CKids(c)>> : c \in sp}
Repl6Ok(x, want, fl) ==
  LET rp == ReplPairs(x) IN
  IF (fl \div 2) % 2 = 0 THEN rp = <<>> ELSE NoDup(rp) /\ Range(rp) = want
Init6Ok(x, want, fl) ==
  LET ii == InitCalls(x.cb)  qs == [i \in 1..Len(ii) |-> ii[i][2]] IN
  IF fl % 2 = 0 THEN ii = <<>> ELSE NoDup(qs) /\ Range(qs) = want
Incoming(want) == UNION {Range(p[2]) : p \in want}

DoHRefC(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} : LET
       rec == e.rec = 1
       as == Flat([r \in Procs(e) |-> Asks(e.R[r].cb)])
       split == {as[i][3] : i \in {j \in 1..Len(as) : as[j][2] = 1 /\ as[j][3][2] < e.maxl}}
       Cl(n, S) == \E spl \in {split} : \E m \in {StackMap(o.L, w.S)} :
         /\ Clause(e, "C28", "columns-asked", \A r \in Procs(e) :
              RefineAskOk(e, r, Range(LocalOf(o.L, o.cut, r - 1)), e.maxl, rec))
         /\ Clause(e, "C28", "columns-split-exactly", n.I = RefineInterior(o.I, spl))
         /\ Clause(e, "C28", "partition-region-kept", SameRegion(o, n))
         /\ IF n.I = RefineInterior(o.I, spl)
            THEN /\ Clause(e, "C28", "children-inherit-the-stack", \A i \in 1..Len(n.L) :
                      Shape(S)[i] = Inherited(m, n.L[i]))
                 /\ Clause(e, "C28", "column-refine-replace", \A r \in Procs(e) :
                      \E want \in {ColSplits(m, {x \in n.I \ o.I : \E k \in 0..x[2] : Anc(x, k) \in Range(LocalOf(o.L, o.cut, r - 1))})} :
                        Repl6Ok(e.R[r], want, e.fl) /\ Init6Ok(e.R[r], Incoming(want), e.fl))
            ELSE TRUE
         /\ HData(e, o, w, "column-refine-data")
     IN HPost(e, K6(e.s), o.cs, w.root, w.dsz, <<>>, Cl)

Coarsest(sets) ==     \* at every height the coarsest layer of several stacks
  LET U == UNION sets IN {y \in U : \A x \in U : x = y \/ ~LWithin(y, x)}
RECURSIVE MergedStack(_, _, _)
MergedStack(m, acc, p) ==
  IF p \in acc THEN Coarsest({MergedStack(m, acc, Child(p, i)) : i \in Cids})
  ELSE Range(Inherited(m, p))
ColMerges(m, acc) ==
  UNION {\* p: a merged column
     LET kid(i) == MergedStack(m, acc, Child(p, i))
         R == Coarsest({kid(i) : i \in Cids})
     IN {<<[i \in 1..NC |-> C6(Child(p, i - 1), y)], <<C6(p, y)>>>> : y \in R}
        \cup UNION {{<<<<C6(Child(p, i), LKid(x, 0)), C6(Child(p, i), LKid(x, 1))>>, <<C6(Child(p, i), x)>>>>
                     : x \in {z \in LInt(kid(i)) : \E y \in R : LWithin(z, y)}} : i \in Cids}
     : p \in acc}
DoHCoaC(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} : LET
       rec == e.rec = 1
       Cl(n, S) == \E acc \in {UNION {Accepted(e.R[r].cb) : r \in Procs(e)}} : \E m \in {StackMap(o.L, w.S)} :
         /\ Clause(e, "C28", "column-families-offered", \A r \in Procs(e) :
              CoarsenAskOk(e, r, o.I, Range(LocalOf(o.L, o.cut, r - 1)), rec, e.orph = 1))
         /\ Clause(e, "C28", "columns-merged-exactly", n.I = o.I \ acc)
         /\ Clause(e, "C28", "partition-region-kept", SameRegion(o, n))
         /\ IF n.I = o.I \ acc /\ acc \subseteq o.I
            THEN /\ Clause(e, "C28", "merged-stack-is-coarsest", \A i \in 1..Len(n.L) :
                      Range(Shape(S)[i]) = IF n.L[i] \in acc THEN MergedStack(m, acc, n.L[i]) ELSE Range(m[n.L[i]]))
                 /\ Clause(e, "C28", "column-coarsen-replace", \A r \in Procs(e) :
                      \E want \in {ColMerges(m, Accepted(e.R[r].cb))} :
                        Repl6Ok(e.R[r], want, e.fl) /\ Init6Ok(e.R[r], Incoming(want), e.fl))
            ELSE TRUE
         /\ HData(e, o, w, "column-coarsen-data")
     IN HPost(e, K6(e.s), o.cs, w.root, w.dsz, <<>>, Cl)

(***************************************************************************)
(* Refinement and coarsening of layers: the columns stay as they are.      *)
(***************************************************************************)
SameColumns(o, n) == n.L = o.L /\ n.cut = o.cut /\ n.rev = o.rev
DoHRefL(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} : LET
       rec == e.rec = 1
       askOk(r) ==
         LET as == Asks(e.R[r].cb)
             qs == [i \in 1..Len(as) |-> as[i][3]]
             sp == {as[i][3] : i \in {j \in 1..Len(as) : as[j][2] = 1 /\ as[j][3][6] < e.maxl}}
             C == Range(LocC(o, w, r - 1))
             kids == IF rec THEN UNION {Range(CKids(c)) : c \in sp} ELSE {}
         IN /\ NoDup(qs) /\ Range(qs) \subseteq (C \cup kids)
            /\ {c \in C \cup kids : c[6] < e.maxl} \subseteq Range(qs)
       Cl(n, S) ==
         \E as \in {Flat([r \in Procs(e) |-> Asks(e.R[r].cb)])} :
         \E sp \in {{as[i][3] : i \in {j \in 1..Len(as) : as[j][2] = 1 /\ as[j][3][6] < e.maxl}}} :
         /\ Clause(e, "C28", "layers-asked", \A r \in Procs(e) : askOk(r))
         /\ Clause(e, "C28", "layer-refine-keeps-columns", SameColumns(o, n))
         /\ Clause(e, "C28", "layers-split-exactly",
              CInt(Range(Cells(n.L, S))) = CInt(Range(Cells(o.L, w.S))) \cup sp)
         /\ Clause(e, "C28", "layer-refine-replace", \A r \in Procs(e) :
              \E want \in {LaySplits({c \in sp : CQ(c) \in Range(LocalOf(o.L, o.cut, r - 1))})} :
                Repl6Ok(e.R[r], want, e.fl) /\ Init6Ok(e.R[r], Incoming(want), e.fl))
         /\ HData(e, o, w, "layer-refine-data")
     IN HPost(e, K6(e.s), o.cs, w.root, w.dsz, <<>>, Cl)

DoHCoaL(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} : LET
       rec == e.rec = 1
       pairs(r) == SelectSeq(e.R[r].cb, LAMBDA x : x[1] = "C")
       accR(r) == LET f == pairs(r) IN {CPar(f[i][3][1]) : i \in {j \in 1..Len(f) : f[j][2] = 1 /\ f[j][3][1][6] > 0}}
       askOk(r) ==
         \E f \in {pairs(r)} : \E acc \in {accR(r)} : \E C \in {Range(LocC(o, w, r - 1))} :
         \E oo \in {Orphs(e.R[r].cb)} :
         LET there == C \cup (IF rec THEN acc ELSE {})
             offered == {p \in CInt(C) : CKid(p, 0) \in there /\ CKid(p, 1) \in there}
             ps == [i \in 1..Len(f) |-> CPar(f[i][3][1])]
             os == [i \in 1..Len(oo) |-> oo[i][2]]
             infam == UNION {Range(CKids(p)) : p \in offered}
         IN /\ \A i \in 1..Len(f) : f[i][3][1][6] > 0 /\ f[i][3] = CKids(ps[i])
            /\ NoDup(ps) /\ Range(ps) = offered
            /\ IF e.orph = 0 THEN oo = <<>>
               ELSE (C \ infam) \subseteq Range(os) /\ Range(os) \subseteq (C \cup acc)
       Cl(n, S) ==
         \E acc \in {UNION {accR(r) : r \in Procs(e)}} :
         /\ Clause(e, "C28", "layer-families-offered", \A r \in Procs(e) : askOk(r))
         /\ Clause(e, "C28", "layer-coarsen-keeps-columns", SameColumns(o, n))
         /\ Clause(e, "C28", "layers-merged-exactly",
              CInt(Range(Cells(n.L, S))) = CInt(Range(Cells(o.L, w.S))) \ acc)
         /\ Clause(e, "C28", "layer-coarsen-replace", \A r \in Procs(e) :
              \E want \in {{<<CKids(c), <<c>>>> : c \in accR(r)}} :
                Repl6Ok(e.R[r], want, e.fl) /\ Init6Ok(e.R[r], Incoming(want), e.fl))
         /\ HData(e, o, w, "layer-coarsen-data")
     IN HPost(e, K6(e.s), o.cs, w.root, w.dsz, <<>>, Cl)

(***************************************************************************)
(* Balance.  Two cells touch in a common piece of boundary when their      *)
(* columns do and their vertical intervals meet; kind 1 relates cells over *)
(* faces, kind 2 over faces and edges, kind 3 also over corners.           *)
(***************************************************************************)
ZTop(y) == y[1] + Hl(y[2])
ZOverlap(a, b) == a[1] < ZTop(b) /\ b[1] < ZTop(a)
ZTouch(a, b) == a[1] <= ZTop(b) /\ b[1] <= ZTop(a)
Near(a, b) == a[2] - b[2] \in {-1, 0, 1}
StacksNear(a, b, diag) ==
  \A x \in Range(a) : \A y \in Range(b) :
     (IF diag THEN ZTouch(x, y) ELSE ZOverlap(x, y)) => Near(x, y)
SelfNear(a) == \A i \in 1..(Len(a) - 1) : Near(a[i], a[i + 1])
LayersBalanced(c, n, S, k) ==
  \E m \in {StackMap(n.L, S)} :
  \E F1 \in {AdjPairs(c, Range(n.L), 1)} :
  \E F2 \in {IF k = 1 THEN {} ELSE AdjPairs(c, Range(n.L), 2) \ F1} :
  /\ \A i \in 1..Len(S) : SelfNear(S[i])
  /\ \A x \in F1 : StacksNear(m[x[1]], m[x[2]], k > 1)
  /\ \A x \in F2 : StacksNear(m[x[1]], m[x[2]], k > 2)
LayersCoarsest(c, n, S, m, k) ==
  \* no family of layers made by balance can be merged again: a finer cell
  \* touches every one of them (given balance, this is minimality as a whole,
  \* as the deepest superfluous family would have no such cell)
  \E mm \in {StackMap(n.L, S)} :
  \E F1 \in {AdjPairs(c, Range(n.L), 1)} :
  \E F2 \in {IF k = 1 THEN {} ELSE AdjPairs(c, Range(n.L), 2) \ F1} :
  \* over edges and corners, a hanging column also counts as a neighbour of
  \* what surrounds its parent's corners: nothing is required then
  (k > 1 /\ \E x \in F1 \cup F2 : x[1][2] # x[2][2]) \/
  \A i \in 1..Len(n.L) : LET q == n.L[i] IN
    \E own \in {Range(mm[q])} :
    \E made \in {{d \in LInt(own) \ LInt(Range(Inherited(m, q))) : LKid(d, 0) \in own /\ LKid(d, 1) \in own}} :
    made = {} \/
      (\E N1 \in {{x[1] : x \in {y \in F1 : y[2] = q}} \cup {x[2] : x \in {y \in F1 : y[1] = q}}} :
       \E N2 \in {{x[1] : x \in {y \in F2 : y[2] = q}} \cup {x[2] : x \in {y \in F2 : y[1] = q}}} :
       \A d \in made :
          \/ \E y \in own : y[2] > d[2] + 1 /\ ZTouch(d, y)
          \/ \E p \in N1 : \E y \in Range(mm[p]) : y[2] > d[2] + 1 /\ (IF k > 1 THEN ZTouch(d, y) ELSE ZOverlap(d, y))
          \/ \E p \in N2 : \E y \in Range(mm[p]) : y[2] > d[2] + 1 /\ (IF k > 2 THEN ZTouch(d, y) ELSE ZOverlap(d, y)))
DoHBal(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} : \E c \in {cs[o.cs]} : LET
       hk == IF e.kind = 1 THEN 1 ELSE 2
       bounds == e.maxd >= e.mind
       loose == ~RegularLinks(c, hk) /\ ~NoSelfContact(c)
       Cl(n, S) == \E m \in {StackMap(o.L, w.S)} :
         /\ Clause(e, "C28", "columns-balanced", o.I \subseteq n.I /\ (Balanced(c, n.I, hk) \/ loose))
         /\ Clause(e, "C28", "columns-coarsest", bounds \/ loose \/ BalanceOk(c, o.I, n.I, hk))
         /\ Clause(e, "C28", "partition-region-kept", SameRegion(o, n))
         /\ IF o.I \subseteq n.I
            THEN Clause(e, "C28", "balance-refines-layers", \A i \in 1..Len(n.L) :
                   LInt(Range(Inherited(m, n.L[i]))) \subseteq LInt(Range(Shape(S)[i])))
            ELSE TRUE
         /\ Clause(e, "C28", "layers-balanced", loose \/ LayersBalanced(c, n, S, e.kind))
         /\ IF bounds \/ loose \/ ~(o.I \subseteq n.I) THEN TRUE
            ELSE Clause(e, "C28", "layers-coarsest", LayersCoarsest(c, n, S, m, e.kind))
         /\ Clause(e, "C28", "thick-layers-split", bounds =>
              \A i \in 1..Len(S) : \A j \in 1..Len(S[i]) : S[i][j][2] - n.L[i][2] >= e.mind)
         /\ Clause(e, "C28", "thin-layers-widened", bounds =>
              \A i \in 1..Len(n.L) : n.L[i][2] >= 29 \/
                 \A y \in Range(Inherited(m, n.L[i])) : y[2] - n.L[i][2] <= e.maxd)
         /\ Clause(e, "C28", "balance-idempotent",
              w.bal = <<e.kind, e.maxd, e.mind>> => n.L = o.L /\ Shape(S) = Shape(w.S))
         /\ Clause(e, "C28", "balance-replace", \A r \in Procs(e) :
              LET old == Range(LocalOf(o.L, o.cut, r - 1))
                  sp == {x \in n.I \ o.I : \E k \in 0..x[2] : Anc(x, k) \in old}
                  lay == {<<n.L[i], Inherited(m, n.L[i]), Shape(S)[i]>> : i \in (n.cut[r] + 1)..n.cut[r + 1]}
                  lsp == UNION {{C6(x[1], y) : y \in LInt(Range(x[3])) \ LInt(Range(x[2]))} : x \in lay}
                  want == ColSplits(m, sp) \cup LaySplits(lsp)
              IN Repl6Ok(e.R[r], want, e.fl) /\ Init6Ok(e.R[r], Incoming(want), e.fl))
         /\ HData(e, o, w, "balance-data")
     IN HPost(e, K6(e.s), o.cs, w.root, w.dsz, <<e.kind, e.maxd, e.mind>>, Cl)

(***************************************************************************)
(* Partition: whole columns travel with their layers and data.             *)
(***************************************************************************)
HWs(e) == Flat([r \in Procs(e) |-> Ws(e.R[r].cb)])
ColSums(W, S) ==     \* layer weights in order, summed per column
  LET P == PrefixSums(W)  A == PrefixSums([i \in 1..Len(S) |-> Len(S[i])])
  IN [i \in 1..Len(S) |-> P[A[i + 1] + 1] - P[A[i] + 1]]
NoCb(e) == \A r \in Procs(e) : e.R[r].cb = <<>>
DoHPart(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} :
     \E wl \in {HWs(e)} :
     \E W \in {[i \in 1..Len(wl) |-> wl[i][2]]} :
     \E asked \in {e.P = 1 \/ e.wk = 0 \/ Len(W) = Len(Cells(o.L, w.S))} :
     \E cw \in {IF e.wk = 0 \/ e.P = 1 \/ ~asked THEN [i \in 1..Len(w.S) |-> Len(w.S[i])] ELSE ColSums(W, w.S)} :
     \E un \in {e.P = 1 \/ \A i \in 1..Len(cw) : cw[i] = 0} :
     \E base \in {IF un THEN o.cut ELSE WeightCut(cw, 1, e.P)} :
     \E wnt \in {IF e.pfc = 1 /\ ~un THEN PfcCut(o.L, base) ELSE base} :
     LET Cl(n, S) ==
           /\ Clause(e, "C28", "partition-keeps-columns-and-layers", n.L = o.L /\ Shape(S) = Shape(w.S))
           /\ Clause(e, "C28", "partition-data-travels", w.dsz > 0 => S = w.S)
           /\ Clause(e, "C28", "layer-weights-asked", asked /\ \A r \in Procs(e) :
                LET x == Ws(e.R[r].cb) IN
                IF e.P = 1 \/ e.wk = 0 THEN e.R[r].cb = <<>>
                ELSE /\ [i \in 1..Len(x) |-> x[i][3]] = LocC(o, w, r - 1)
                     /\ (w.dsz > 0 => [i \in 1..Len(x) |-> x[i][4]] = LocV(o, w, r - 1)))
           /\ Clause(e, "C28", "partition-cuts-whole-columns", n.cut = wnt)
           /\ Clause(e, "C28", "shipped-layers", \A r \in Procs(e) :
                e.R[r].ret = Shipped(LCut(o.L, w.S, o.cut), LCut(n.L, S, n.cut)))
     IN HPost(e, K6(e.s), o.cs, w.root, w.dsz, w.bal, Cl)

\* prescribed layer counts: cuts, in layers, of the columns
LayerAt(S, i) == PrefixSums([j \in 1..Len(S) |-> Len(S[j])])[i]
ColCut(S, lcut) ==   \* the column that starts at every layer number
  LET A == PrefixSums([j \in 1..Len(S) |-> Len(S[j])])
  IN [i \in 1..Len(lcut) |-> (CHOOSE k \in 1..Len(A) : A[k] >= lcut[i] /\ (k = 1 \/ A[k - 1] < lcut[i])) - 1]
DoHGiven(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} :
     LET Cl(n, S) ==
           /\ Clause(e, "C28", "given-keeps-columns-and-layers", n.L = o.L /\ Shape(S) = Shape(w.S))
           /\ Clause(e, "C28", "given-data-travels", w.dsz > 0 => S = w.S)
           /\ Clause(e, "C28", "given-cuts", e.gfl = PrefixSums(e.num))
           /\ Clause(e, "C28", "given-shipped-layers", \A r \in Procs(e) :
                e.R[r].ret = Shipped(LCut(o.L, w.S, o.cut), LCut(n.L, S, n.cut)))
     IN HPost(e, K6(e.s), o.cs, w.root, w.dsz, w.bal, Cl)
\* corrected counts: cuts inside a column move to its end; families of
\* columns stay together
DoHCnt(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} :
     \E cc \in {ColCut(w.S, PrefixSums(e.num))} :
     \E want \in {IF e.what = 0 THEN cc ELSE PfcCut(o.L, cc)} :
     Clause(e, "C28", "corrected-counts", \A r \in Procs(e) :
        Len(e.R[r].out) = e.P /\ PrefixSums(e.R[r].out) = LCut(o.L, w.S, want))

(***************************************************************************)
(* Copy, data reset, checksum, files.                                      *)
(***************************************************************************)
DoHCopy(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} :
     LET Cl(n, S) ==
           Clause(e, "C28", "copy", /\ n.L = o.L /\ n.cut = o.cut /\ Shape(S) = Shape(w.S)
                                    /\ (e.cd = 1 /\ w.dsz > 0) => S = w.S)
     IN HPost(e, K6(e.d), o.cs, w.root, IF e.cd = 1 THEN w.dsz ELSE 0, w.bal, Cl)
DoHReset(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} :
     LET Cl(n, S) ==
           /\ Clause(e, "C28", "reset-keeps-layers", SameColumns(o, n) /\ Shape(S) = Shape(w.S))
           /\ Clause(e, "C28", "reset-data", e.fl % 2 = 0 /\ e.dsz = w.dsz /\ e.dsz > 0 => S = w.S)
           /\ HNewData(e)
     IN HPost(e, K6(e.s), o.cs, w.root, e.dsz, w.bal, Cl)
\* equal columns and layers have equal checksums under any partition
DoHCheck(e) ==
  /\ Keep(e)
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} : \E v \in {<<e.R[1].hi, e.R[1].lo>>} :
     \E key \in {<<"p6", o.L, Shape(w.S)>>} :
     /\ Clause(e, "C28", "checksum-of-columns-and-layers", \A x \in aux.ck : x[1] = key => x[2] = v)
     /\ aux' = [aux EXCEPT !.ck = @ \cup {<<key, v>>}]
DoHSave(e) ==
  /\ Step /\ UNCHANGED <<dead, cs, fs>>
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} :
     /\ Clause(e, "C28", "saving-changes-nothing",
          PostL(e) = o.L /\ CutOf(e) = o.cut /\ (IF w.dsz > 0 THEN StacksOf(e) = w.S ELSE Shape(StacksOf(e)) = Shape(w.S)))
     /\ aux' = [aux EXCEPT !.files = (<<"p6", e.id>> :>
                  [L |-> o.L, S |-> w.S, root |-> w.root, dsz |-> IF e.sd = 1 THEN w.dsz ELSE 0,
                   part |-> IF e.sp = 1 THEN o.cut ELSE <<0, Len(o.L)>>]) @@ aux.files]
DoHLoad(e) ==
  /\ IF <<"p6", e.id>> \in DOMAIN aux.files /\ e.cs \in DOMAIN cs
     THEN /\ Step /\ UNCHANGED cs
          /\ \E f \in {aux.files[<<"p6", e.id>>]} :
             LET Cl(n, S) ==
                   /\ Clause(e, "C28", "file-restores-columns", n.L = f.L /\ \A r \in Procs(e) : e.R[r].ceq = 1)
                   /\ Clause(e, "C28", "file-restores-layers", Shape(S) = Shape(f.S))
                   /\ Clause(e, "C28", "file-restores-data", e.ld = 1 /\ e.dsz > 0 => S = f.S)
                   /\ Clause(e, "C28", "file-restores-partition",
                        n.cut = IF e.autop = 1 \/ Len(f.part) # e.P + 1 THEN UniformCut(Len(n.L), e.P) ELSE f.part)
             IN HPost(e, K6(e.s), e.cs, f.root, e.dsz, <<>>, Cl)
     ELSE Step /\ dead' = TRUE /\ UNCHANGED <<cs, fs, aux>>
DoHCio(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ Clause(e, "C28", "connectivity-file", e.R[1].ok = 1 /\ e.R[1].ret = 0)

ColKinds == {"hnew", "hfrom", "hrefc", "hrefl", "hcoac", "hcoal", "hbal", "hpart", "hgiven", "hcnt", "hcopy",
             "hreset", "hcheck", "hsave", "hload", "hcio"}
ColOp(e) ==
  CASE e.k = "hnew" -> DoHNew(e) [] e.k = "hfrom" -> DoHFrom(e) [] e.k = "hrefc" -> DoHRefC(e)
    [] e.k = "hrefl" -> DoHRefL(e) [] e.k = "hcoac" -> DoHCoaC(e) [] e.k = "hcoal" -> DoHCoaL(e)
    [] e.k = "hbal" -> DoHBal(e) [] e.k = "hpart" -> DoHPart(e) [] e.k = "hgiven" -> DoHGiven(e)
    [] e.k = "hcnt" -> DoHCnt(e) [] e.k = "hcopy" -> DoHCopy(e) [] e.k = "hreset" -> DoHReset(e)
    [] e.k = "hcheck" -> DoHCheck(e) [] e.k = "hsave" -> DoHSave(e) [] e.k = "hload" -> DoHLoad(e)
    [] e.k = "hcio" -> DoHCio(e)
=============================================================================
