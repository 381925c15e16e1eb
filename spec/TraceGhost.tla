------------------------------ MODULE TraceGhost ----------------------------
(***************************************************************************)
(* Ghost layer (C09) and ghost exchange (C10).                             *)
(* A ghost slot remembers: the forest slot, the adjacency pairs of the     *)
(* kind, the ghost sets by process as the specification has them, and the  *)
(* lists the library reported.                                             *)
(***************************************************************************)
EXTENDS TraceCore

\* positions (1-based) of the leaves of process r (1-based)
LocPos(o, r) == (o.cut[r] + 1)..o.cut[r + 1]
PosMap(L) == TLCEval([q \in SetOf(L) |-> CHOOSE i \in 1..Len(L) : L[i] = q])
\* A[i]: positions of the equal or coarser leaves over the neighbours of leaf i
AdjTable(c, L, k) ==
  LET S == TLCEval(SetOf(L))
      pos == PosMap(L)
  IN TLCEval([i \in 1..Len(L) |-> TLCEval({pos[m] : m \in CoarseNbrs(c, S, L[i], k)})])

\* leaves that touch a leaf of Q
Touching(A, Q) == UNION {A[i] : i \in Q} \cup {j \in 1..Len(A) : \E k \in A[j] : k \in Q}
GhostSetOf(A, loc) == TLCEval(Touching(A, loc) \ loc)
\* one more layer of adjacency
ExpandSet(A, g, loc) == TLCEval(g \cup (Touching(A, g) \ loc))

Below(s, n) == [i \in 1..n |-> Len(SelectSeq(s, LAMBDA x : x < i - 1))]
SeqOfSet(S, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \in S)
MirrorPos(o, G, r) == SelectSeq([i \in 1..(o.cut[r + 1] - o.cut[r]) |-> o.cut[r] + i],
                                LAMBDA i : \E p \in (1..o.P) \ {r} : i \in G[p])

\* the reported structure R of process r describes ghost sets G[1..P]
GhostMatches(o, c, G, R, r) ==
  LET L == o.L
      want == TLCEval(SeqOfSet(G[r], Len(L)))
      mir == TLCEval(MirrorPos(o, G, r))
      ow == TLCEval([i \in 1..Len(want) |-> OwnerOf(o.cut, want[i] - 1)])
      mfor(p) == IF p = r THEN <<>>
                 ELSE SelectSeq([i \in 1..Len(mir) |-> i - 1], LAMBDA i : mir[i + 1] \in G[p])
      mf == TLCEval([p \in 1..o.P |-> mfor(p)])
  IN /\ Len(R.g) = Len(want) /\ \A i \in 1..Len(want) : R.g[i] = L[want[i]]
     /\ R.gn = [i \in 1..Len(want) |-> want[i] - 1 - o.cut[ow[i] + 1]]
     /\ R.to = Below([i \in 1..Len(want) |-> L[want[i]][1]], c.nt + 1)
     /\ R.po = Below(ow, o.P + 1)
     /\ Len(R.m) = Len(mir) /\ \A i \in 1..Len(mir) : R.m[i] = L[mir[i]]
     /\ R.mn = [i \in 1..Len(mir) |-> mir[i] - 1 - o.cut[r]]
     /\ R.mto = Below([i \in 1..Len(mir) |-> L[mir[i]][1]], c.nt + 1)
     /\ R.mpo = PrefixSums([p \in 1..o.P |-> Len(mf[p])])
     /\ R.mpm = Flat(mf)
     /\ R.mem = 1

DoGhost(e) ==
  /\ Keep(e)
  /\ \E o \in {fs[e.s]} : \E c \in {cs[o.cs]} :
     LET judged == Is({"C09", "C11", "C13"}) IN
     \E A \in {IF e.kind = 0 \/ ~judged THEN [i \in 1..Len(o.L) |-> {}] ELSE AdjTable(c, o.L, e.kind)} :
     \E G \in {[r \in 1..o.P |-> GhostSetOf(A, LocPos(o, r))]} :
        /\ Clause(e, "C09", "exact-ghosts-and-mirrors",
             \A r \in Procs(e) : GhostMatches(o, c, G, e.R[r], r))
        /\ Clause(e, "C09", "self-check", \A r \in Procs(e) : e.R[r].val = 1)
        /\ Clause(e, "C09", "no-front-yet", \A r \in Procs(e) : e.R[r].hf = 0)
        /\ aux' = [aux EXCEPT !.gh = (e.g :> [s |-> e.s, A |-> IF judged THEN A ELSE <<>>,
                                              G |-> IF judged THEN G ELSE <<>>,
                                              R |-> e.R, kind |-> e.kind, n |-> 1]) @@ aux.gh]

DoGExpand(e) ==
  /\ Keep(e)
  /\ \E x \in {aux.gh[e.g]} : \E o \in {fs[x.s]} : \E c \in {cs[o.cs]} :
     LET judged == Is({"C09", "C11", "C13"}) IN
     \E G \in {IF judged THEN [r \in 1..o.P |-> ExpandSet(x.A, x.G[r], LocPos(o, r))] ELSE x.G} :
     \E F \in {[r \in 1..o.P |-> IF judged THEN G[r] \ x.G[r] ELSE {}]} :
        /\ Clause(e, "C09", "expanded-by-one-layer",
             \A r \in Procs(e) : GhostMatches(o, c, G, e.R[r], r))
        /\ Clause(e, "C09", "expanded-self-check", \A r \in Procs(e) : e.R[r].val = 1)
        /\ Clause(e, "C09", "front-is-last-layer",
             \A r \in Procs(e) : x.kind = 0 \/ e.R[r].hf = 0 \/
                /\ Len(e.R[r].fro) = o.P + 1
                /\ \A p \in Procs(e) :
                     LET fr == SubSeq(e.R[r].frm, e.R[r].fro[p] + 1, e.R[r].fro[p + 1])
                     IN {e.R[r].m[i + 1] : i \in SetOf(fr)} =
                           {o.L[i] : i \in IF p = r THEN {} ELSE F[p] \cap LocPos(o, r)}
                        /\ NoDup(fr))
        /\ aux' = [aux EXCEPT !.gh = (e.g :> [x EXCEPT !.G = IF judged THEN G ELSE x.G,
                                                       !.R = e.R, !.n = x.n + 1]) @@ aux.gh]

(***************************************************************************)
(* Queries.                                                                *)
(***************************************************************************)
\* the leaf at the first position of quadrant t
FirstLeaf(S, t) ==
  LET u == LeafOver(S, t)
      RECURSIVE Down(_)
      Down(q) == IF q \in S THEN q ELSE Down(Child(q, 0))
  IN IF u # {} THEN (CHOOSE q \in u : TRUE) ELSE Down(t)

OwnerAt(o, pos, S, w) == OwnerOf(o.cut, pos[FirstLeaf(S, w)] - 1)
\* <<"x", q, direction, exists any, exists, ranks, quadrants>>: the neighbours
\* across a tree corner or edge.  Those explicitly joined there are queried
\* unless the trees also meet in a face (edge); no others are.
ManyOk(o, c, g, S, pos, r, y) ==
  LET q == y[2]  d == y[3]  qs == y[7]  t == q[1]  h == H(q)
      out == {a \in Axes : d[a] # 0}
      all == Nbrs(c, q, d)
      must ==
        IF out = Axes
        THEN LET k == (IF d[1] < 0 THEN 0 ELSE 1) + (IF d[2] < 0 THEN 0 ELSE 2)
                      + (IF DIM = 2 \/ d[DIM] < 0 THEN 0 ELSE 4)
             IN {CornerQ(z[1], q[2], z[2]) :
                   z \in (UNION {gr \in c.cg : <<t, k>> \in gr})
                        \ ({<<t, k>>} \cup CnFaceNb(c, <<t, k>>)
                           \cup (IF DIM = 2 THEN {} ELSE CnEdgeNb(c, <<t, k>>)))}
        ELSE LET ax == CHOOSE a \in Axes : a \notin out
                 u == EOther[ax]
                 e == EdgeNo(ax, IF d[u[1]] < 0 THEN 0 ELSE 1, IF d[u[2]] < 0 THEN 0 ELSE 1)
                 expl == UNION {{<<z[1], z[2]>> : z \in gr} : gr \in
                           {gr \in c.eg : \E z \in gr : z[1] = t /\ z[2] = e}}
             IN {EdgeQh(z[1], q[2], z[2], IF z[3] = 0 THEN q[2 + ax] ELSE (ROOT - h) - q[2 + ax], h) :
                   z \in {w \in c.eo[t][e] : <<w[1], w[2]>> \in expl
                             /\ <<w[1], w[2]>> \notin ({<<t, e>>} \cup EgFaceNb(c, <<t, e>>))}}
      known(w) == w \in S /\ (OwnerAt(o, pos, S, w) = r - 1 \/ \E i \in 1..Len(g) : g[i] = w)
  IN /\ Len(y) = 7 /\ Len(y[5]) = Len(qs) /\ Len(y[6]) = Len(qs)
     /\ SetOf(qs) \subseteq all
     /\ must \subseteq SetOf(qs)
     /\ \A i \in 1..Len(qs) : y[5][i] = (IF known(qs[i]) THEN 1 ELSE 0)
                              /\ y[6][i] = OwnerAt(o, pos, S, qs[i])
     /\ y[4] = (IF \E i \in 1..Len(qs) : y[5][i] = 1 THEN 1 ELSE 0)

QueryOk(o, c, x, S, pos, r, y) ==
  LET g == x.R[r].g
      LL == o.L
  IN IF y[1] = "x" THEN ManyOk(o, c, g, S, pos, r, y)
     ELSE IF y[1] = "b" \/ y[1] = "c"
     THEN LET po == x.R[r].po
              lo == IF y[2] < 0 THEN 1 ELSE po[y[2] + 1] + 1
              hi == IF y[2] < 0 THEN Len(g) ELSE po[y[2] + 2]
              hit == {i \in lo..hi : IF y[1] = "b" THEN g[i] = y[3] ELSE IsAncEq(g[i], y[3])}
          IN IF hit = {} THEN y[4] = -1 ELSE \E i \in hit : y[4] = i - 1
     ELSE \* <<"f", quad, face, hin, ret, fout, hout, owner, exists, findowner, list>>
       LET q == y[2]  f == y[3]
           co == [a \in Axes |-> q[2 + a]]
           inside == InRoot(q)
           nb == FNb(c, q[1], f)
           bnd == ~inside /\ IsBnd(c, q[1], f)
           tr == AcrossFace(f, nb[2], nb[3], H(q), co)
           tgt == IF inside THEN q ELSE MkQ(nb[1], q[2], LAMBDA a : tr[a])
           nfc == IF y[4] < 0 THEN 0 ELSE (CHOOSE k \in 1..NFC : FCn[f][k] = y[4])
           own == OwnerOf(o.cut, pos[FirstLeaf(S, tgt)] - 1)
           known == tgt \in S /\ (own = r - 1 \/ \E i \in 1..Len(g) : g[i] = tgt)
           num == pos[tgt] - 1 - o.cut[own + 1]
       IN IF bnd THEN y[5] = -2 /\ y[6] = -1 /\ y[7] = -1 /\ y[9] = 0 /\ y[10] = -1
          ELSE /\ y[5] = IF known THEN num ELSE -1
               /\ y[6] = IF inside THEN f ^^ 1 ELSE nb[2] + NF * nb[3]
               /\ y[7] = IF y[4] < 0 THEN -1
                         ELSE IF inside THEN nfc - 1 ELSE FaceMapT[f][nb[2]][nb[3]][nfc]
               /\ known => y[8] = own
               /\ y[9] = (IF known THEN 1 ELSE 0)
               /\ y[10] = own
               /\ y[11] = <<tgt>>
DoGQuery(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ \E x \in {aux.gh[e.g]} : \E o \in {fs[x.s]} :
     \E S \in {SetOf(o.L)} : \E pos \in {PosMap(o.L)} :
     Clause(e, "C09", "queries", \A r \in Procs(e) : \A i \in 1..Len(e.R[r].cb) :
              QueryOk(o, cs[o.cs], x, S, pos, r, e.R[r].cb[i]))

(***************************************************************************)
(* Exchange: ghost entry i of process r holds what its owner supplied.     *)
(***************************************************************************)
ExchOk(x, r, gv, mv(_), minl, maxl) ==
  LET g == x.R[r].g IN
  /\ Len(gv) = Len(g)
  /\ \A i \in 1..Len(g) :
       IF g[i][2] < minl \/ g[i][2] > maxl THEN gv[i] = -2
       ELSE LET p == CHOOSE p \in 1..(Len(x.R[r].po) - 1) :
                       x.R[r].po[p] < i /\ i <= x.R[r].po[p + 1]
            IN \E j \in 1..Len(x.R[p].m) :
                 x.R[p].m[j] = g[i] /\ mv(p)[j] = gv[i]
DoGExch(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ \E x \in {aux.gh[e.g]} :
     LET A(p) == e.R[p].mv0
         B(p) == e.R[p].mv1
     IN /\ Clause(e, "C10", "owner-values", \A r \in Procs(e) : ExchOk(x, r, e.R[r].gv0, A, e.minl, e.maxl))
        /\ Clause(e, "C10", "owner-values-second", e.two = 1 =>
             \A r \in Procs(e) : ExchOk(x, r, e.R[r].gv1, B, e.minl, e.maxl))
        /\ Clause(e, "C10", "bounds", \A r \in Procs(e) : e.R[r].ov0 = 1 /\ e.R[r].ov1 = 1)

GhostOp(e) ==
  CASE e.k = "ghost" -> DoGhost(e)
    [] e.k = "gexpand" -> DoGExpand(e)
    [] e.k = "gquery" -> DoGQuery(e)
    [] e.k = "gexch" -> DoGExch(e)
GhostKinds == {"ghost", "gexpand", "gquery", "gexch"}
=============================================================================
