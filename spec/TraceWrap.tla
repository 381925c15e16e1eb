------------------------------ MODULE TraceWrap -----------------------------
(***************************************************************************)
(* The adaptation interface p4est_wrap (C26).  A wrap slot remembers, in   *)
(* addition to the forest of the same slot number: its parameters, the     *)
(* marks set since the last adaptation (positions of leaves marked for     *)
(* refinement, fr, and for coarsening, fc), the adaptation counters of the *)
(* leaves, and where in the cycle mark - adapt - partition - complete the  *)
(* wrap is.                                                                *)
(***************************************************************************)
EXTENDS TraceTopo

WPost(e, slot, csl, Cl(_, _), W(_)) ==
  \E L \in {PostL(e)} :
  \E c \in {cs[csl]} :
     IF Tiling(L, c.nt)
     THEN /\ StateClauses(e, c, L, CutOf(e))
          /\ \E n \in {Adopt(e, csl, L)} :
             /\ Cl(L, n)
             /\ Clause(e, "C26", "public-members", \A r \in Procs(e) : e.R[r].pub = 1)
             /\ fs' = (slot :> n) @@ fs
             /\ aux' = [aux EXCEPT !.w = (slot :> W(n)) @@ aux.w]
          /\ dead' = FALSE
     ELSE /\ Clause(e, "C26", "leaves-tile-domain", FALSE)
          /\ dead' = TRUE /\ UNCHANGED <<fs, aux>>

Counters(e) == Flat([r \in Procs(e) |-> e.R[r].ui])
NoCounts(n) == [i \in 1..Len(n.L) |-> 0]
FlagBit(fl, b) == (fl \div b) % 2 = 1

DoWNew(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E c \in {cs[e.cs]} :
     LET w(n) == [kind |-> e.kind, hollow |-> FlagBit(e.fl, 1), pfc |-> FlagBit(e.fl, 2),
                  store |-> FlagBit(e.fl, 4), aff |-> FlagBit(e.fl, 8), repl |-> FlagBit(e.fl, 16),
                  delay |-> e.delay, fr |-> {}, fc |-> {}, cnt |-> NoCounts(n), st |-> "idle"]
         Cl(L, n) ==
           /\ Clause(e, "C26", "new-forest",
                IF e.how < 2 THEN NewOk(e, c, NewLevel(c.nt, e.P, 0, e.lev))
                ELSE n.L = fs[e.s].L /\ n.cut = fs[e.s].cut)
           /\ Clause(e, "C26", "new-state", n.dsz = 0 /\ \A r \in Procs(e) :
                e.R[r].na = 0 /\ e.R[r].hl = (IF w(n).hollow THEN 1 ELSE 0))
           /\ Clause(e, "C26", "new-counters", Counters(e) = NoCounts(n))
     IN WPost(e, e.s, e.cs, Cl, w)

(***************************************************************************)
(* Marks: the last mark of a leaf counts.                                  *)
(***************************************************************************)
DoWMark(e) ==
  /\ Keep(e)
  /\ \E o \in {fs[e.s]} : \E w \in {aux.w[e.s]} :
     \E mk \in {Flat([r \in Procs(e) |-> [i \in 1..Len(e.R[r].mk) |->
                      <<e.R[r].mk[i][1], o.cut[r] + e.R[r].mk[i][2] + 1>>]])} :
     \E m \in {FoldLeft(LAMBDA a, x :
                  IF x[1] = 0 THEN [fr |-> a.fr \cup {x[2]}, fc |-> a.fc \ {x[2]}]
                  ELSE [fr |-> a.fr \ {x[2]}, fc |-> a.fc \cup {x[2]}],
                  [fr |-> w.fr, fc |-> w.fc], mk)} :
       aux' = [aux EXCEPT !.w = (e.s :> [w EXCEPT !.fr = m.fr, !.fc = m.fc]) @@ aux.w]

(***************************************************************************)
(* Adaptation: refine the marked leaves by one level, merge every family   *)
(* all of whose members were leaves of one process marked for coarsening   *)
(* and old enough, then restore the 2:1 balance.                           *)
(***************************************************************************)
Aged(v) == IF v < 0 THEN v ELSE v + 1
OldEnough(w, v) == w.delay = 0 \/ Aged(v) < 0 \/ Aged(v) > w.delay
\* families accepted, from the marked positions
WAccepted(o, w) ==
  LET ok(i) == i \in w.fc /\ OldEnough(w, w.cnt[i])
      S == {i \in w.fc : o.L[i][2] > 0 /\ Cid(o.L[i]) = 0}
  IN {Parent(o.L[i]) : i \in {j \in S :
        /\ j + NC - 1 <= Len(o.L)
        /\ \A k \in 0..(NC - 1) : ok(j + k) /\ o.L[j + k] = Sibling(o.L[j], k)
        /\ OwnerOf(o.cut, j - 1) = OwnerOf(o.cut, j + NC - 2)}}

WBalanced(c, I2, I, kind) ==
  BalanceOk(c, I2, I, kind) \/ (aux.grp >= 0 /\ ~RegularLinks(c, kind) /\ ~NoSelfContact(c))

IdxWhere(e, r, P(_)) ==
  LET q == e.R[r].q IN SelectSeq([i \in 1..Len(q) |-> i - 1], LAMBDA i : P(q[i + 1]))

DoWAdapt(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} : \E c \in {cs[o.cs]} : \E w \in {aux.w[e.s]} :
     \E pos \in {PosMap(o.L)} :
     \E ref \in {{o.L[i] : i \in {j \in w.fr : o.L[j][2] < QMAXL}}} :
     \E acc \in {WAccepted(o, w)} :
     \E I2 \in {(o.I \cup ref) \ acc} :
     \E gone \in {UNION {Children(p) : p \in acc}} :
     LET chg == ref # {} \/ acc # {}
         \* the counter of a leaf after the adaptation
         cntOf(q) ==
           IF q \in acc THEN (IF w.aff THEN 0 ELSE -1)
           ELSE IF q \in DOMAIN pos /\ q \notin gone THEN Aged(w.cnt[pos[q]])
           ELSE IF q[2] > 0 /\ Parent(q) \in ref THEN 0
           ELSE -1
         cnt(n) == [i \in 1..Len(n.L) |-> IF w.delay = 0 THEN 0 ELSE cntOf(n.L[i])]
         Cl(L, n) ==
           /\ Clause(e, "C26", "adapted-as-marked",
                IF chg THEN WBalanced(c, I2, n.I, w.kind) ELSE n.I = o.I)
           /\ Clause(e, "C26", "returns-whether-changed", \A r \in Procs(e) :
                e.R[r].ret = IF n.I = o.I THEN 0 ELSE 1)
           /\ Clause(e, "C26", "partition-region-kept", SameRegion(o, n))
           /\ Clause(e, "C26", "coarsening-counters", w.delay = 0 \/ Counters(e) = cnt(n))
           /\ Clause(e, "C26", "replacements-reported", \A r \in Procs(e) :
                LET S == Range(LocalOf(o.L, o.cut, r - 1))
                    a == {p \in acc : Child(p, 0) \in S}
                    rf == ref \cap S
                    m == (S \ (rf \cup gone)) \cup a \cup UNION {Children(p) : p \in rf}
                    sp == {x \in n.I \ I2 : \E k \in 0..x[2] : Anc(x, k) \in m}
                IN ReplOk(e.R[r], rf \cup sp, a, IF w.repl THEN 2 ELSE 0))
           /\ Clause(e, "C26", "newly-adapted", \A r \in Procs(e) :
                IF ~w.store THEN e.R[r].na = 0
                ELSE LET old(q) == q \in DOMAIN pos
                         up(q) == q[2] > 0 /\ old(Parent(q))
                         dn(q) == q[2] < QMAXL /\ old(Child(q, 0))
                     IN /\ e.R[r].na = 1
                        /\ (\A i \in 1..Len(L) : old(L[i]) \/ up(L[i]) \/ dn(L[i])) =>
                             /\ e.R[r].nr = IdxWhere(e, r, LAMBDA q : ~old(q) /\ up(q) /\ Cid(q) = 0)
                             /\ e.R[r].nc = IdxWhere(e, r, LAMBDA q : ~old(q) /\ dn(q)))
         W(n) == [w EXCEPT !.fr = {}, !.fc = {}, !.cnt = cnt(n),
                           !.st = IF e.R[1].ret = 1 THEN "adapted" ELSE "idle"]
     IN WPost(e, e.s, o.cs, Cl, W)

(***************************************************************************)
(* Partition and completion.                                               *)
(***************************************************************************)
Window(oc, nc, r) ==
  LET a == IF oc[r] > nc[r] THEN oc[r] ELSE nc[r]
      b == IF oc[r + 1] < nc[r + 1] THEN oc[r + 1] ELSE nc[r + 1]
  IN IF a >= b THEN <<0, 0, 0>> ELSE <<a - nc[r], b - a, a - oc[r]>>
DoWPart(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} : \E w \in {aux.w[e.s]} :
     \E base \in {IF e.P = 1 THEN o.cut
                  ELSE IF e.ex = 0 THEN UniformCut(Len(o.L), e.P)
                  ELSE WeightCut([i \in 1..Len(o.L) |-> Pow2[o.L[i][2]]], 1, e.P)} :
     \E wnt \in {IF w.pfc /\ e.P > 1 THEN PfcCut(o.L, base) ELSE base} :
     LET Cl(L, n) ==
           /\ Clause(e, "C26", "partition-keeps-leaves", L = o.L)
           /\ Clause(e, "C26", "partition-cuts", n.cut = wnt)
           /\ Clause(e, "C26", "partition-return", \A r \in Procs(e) :
                e.R[r].ret = IF n.cut = o.cut THEN 0 ELSE 1)
           /\ Clause(e, "C26", "unchanged-window", \A r \in Procs(e) :
                LET u == IF n.cut = o.cut THEN <<0, Len(e.R[r].q), 0>> ELSE Window(o.cut, n.cut, r)
                IN \A k \in 1..3 : e.R[r].u[k] = IF FlagBit(e.ask, Pow2[k - 1]) THEN u[k] ELSE -7)
           /\ Clause(e, "C26", "counters-travel", w.delay = 0 \/ Counters(e) = w.cnt)
         W(n) == [w EXCEPT !.st = IF e.R[1].ret = 1 THEN "parted" ELSE "idle", !.fr = {}, !.fc = {}]
     IN WPost(e, e.s, o.cs, Cl, W)
\* calls that leave the forest alone
WSame(e, o, L, n) == L = o.L /\ n.cut = o.cut
DoWDone(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} : \E w \in {aux.w[e.s]} :
     LET Cl(L, n) == Clause(e, "C26", "complete-keeps-leaves", WSame(e, o, L, n))
         W(n) == [w EXCEPT !.st = "idle"]
     IN WPost(e, e.s, o.cs, Cl, W)
DoWHollow(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} : \E w \in {aux.w[e.s]} :
     LET Cl(L, n) == Clause(e, "C26", "hollow", WSame(e, o, L, n) /\ \A r \in Procs(e) : e.R[r].hl = e.h)
         W(n) == IF w.hollow = (e.h = 1) THEN w
                 ELSE [w EXCEPT !.hollow = (e.h = 1), !.fr = {}, !.fc = {}]
     IN WPost(e, e.s, o.cs, Cl, W)
DoWDelay(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} : \E w \in {aux.w[e.s]} :
     LET Cl(L, n) == Clause(e, "C26", "delay-resets-counters", WSame(e, o, L, n) /\ Counters(e) = NoCounts(n))
         W(n) == [w EXCEPT !.delay = e.delay, !.aff = (e.aff = 1), !.cnt = NoCounts(n),
                           !.pfc = IF e.pfc < 0 THEN w.pfc ELSE e.pfc = 1]
     IN WPost(e, e.s, o.cs, Cl, W)
DoWCopy(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} : \E w \in {aux.w[e.s]} :
     LET Cl(L, n) ==
           Clause(e, "C26", "copy", WSame(e, o, L, n) /\ n.dsz = e.dsz /\ \A r \in Procs(e) : e.R[r].hl = 1)
         W(n) == [w EXCEPT !.hollow = TRUE, !.fr = {}, !.fc = {}, !.st = "copy"]
     IN WPost(e, e.d, o.cs, Cl, W)

\* iteration over the local leaves
DoWLeaf(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ \E o \in {fs[e.s]} : \E w \in {aux.w[e.s]} : \E c \in {cs[o.cs]} :
     \E A \in {IF e.track = 1 THEN AdjTable(c, o.L, w.kind) ELSE <<>>} :
     \E G \in {IF e.track = 1 THEN [r \in 1..o.P |-> GhostSetOf(A, LocPos(o, r))] ELSE <<>>} :
     Clause(e, "C26", "leaf-iterator", \A r \in Procs(e) :
       LET loc == LocalOf(o.L, o.cut, r - 1)
           mir == IF e.track = 1 THEN SetOf(MirrorPos(o, G, r)) ELSE {}
       IN e.R[r].lf = [i \in 1..Len(loc) |->
            LET k == Cardinality({j \in 1..(i - 1) : loc[j][1] = loc[i][1]}) IN
            <<k, i - 1, IF o.cut[r] + i \in mir THEN 1 ELSE 0, IF k = 0 THEN 1 ELSE 0, loc[i], 1>>])

WrapOp(e) ==
  CASE e.k = "wnew" -> DoWNew(e)
    [] e.k = "wmark" -> DoWMark(e)
    [] e.k = "wadapt" -> DoWAdapt(e)
    [] e.k = "wpart" -> DoWPart(e)
    [] e.k = "wdone" -> DoWDone(e)
    [] e.k = "whollow" -> DoWHollow(e)
    [] e.k = "wdelay" -> DoWDelay(e)
    [] e.k = "wcopy" -> DoWCopy(e)
    [] e.k = "wleaf" -> DoWLeaf(e)
    [] e.k = "wghost" -> DoGhost(e)
    [] e.k = "wmesh" -> DoMesh(e)
WrapKinds == {"wnew", "wmark", "wadapt", "wpart", "wdone", "whollow", "wdelay", "wcopy", "wleaf", "wghost", "wmesh"}
=============================================================================
