----------------------------- MODULE TraceNodes -----------------------------
(***************************************************************************)
(* Global node numberings (C12, C13, C14).                                 *)
(***************************************************************************)
EXTENDS Nodes

GNum(R, i) == IF i < R.oc THEN R.off + i ELSE R.nl[i - R.oc + 1]
GSeq(R) == [i \in 1..R.n |-> GNum(R, i - 1)]
IsPermOf(s, X) == Len(s) = Cardinality(X) /\ SetOf(s) = X

\* edges that are glued to themselves in reverse have no direction
Directed(c, L) == DIM = 2 \/ \A t \in 0..(c.nt - 1) : \A e \in 0..(NE - 1) :
                    \A y \in c.eo[t][e] : <<y[1], y[2], 1 - y[3]>> \notin c.eo[t][e]

\* Where a tree touches itself, the order of the sides in that tree decides
\* instead of the order of the elements (known finding; scripts of group -1
\* are strict): any member in the lowest tree may own such a node.
SelfGlued(c, t) ==
  \/ \E f \in 0..(NF - 1) : LET n == FNb(c, t, f) IN n[1] = t /\ n[2] # f
  \/ \E k \in Cids : \E y \in c.co[t][k] : y[1] = t /\ y[2] # k
  \/ DIM = 3 /\ \E k \in 0..(NE - 1) : \E y \in c.eo[t][k] : y[1] = t /\ y[2] # k
OnBnd(k) == LET q == k[2][1]  n == k[2][2] IN
  CASE k[1] = 0 -> FALSE
    [] k[1] = 1 -> OnTreeFace(q, n)
    [] k[1] = 2 -> \E f \in EFaces[n] : OnTreeFace(q, f)
    [] k[1] = 3 -> \E f \in CFaces[n] : OnTreeFace(q, f)
KeyMembers(c, S, I, k) == LET q == k[2][1]  n == k[2][2] IN
  CASE k[1] = 1 -> UNION {SetOf(FaceMembers(S, I, v)) : v \in FaceInc(c, q, n)}
    [] k[1] = 2 -> UNION {SetOf(EdgeMembers(S, I, v)) : v \in EdgeInc(c, q, n)}
    [] k[1] = 3 -> {CellLeaf(S, v) : v \in PointKey(c, q, n)}
SelfFirsts(c, o, self, k, first) ==
  IF aux.grp < 0 \/ o.L[first][1] \notin self \/ ~OnBnd(k) THEN {}
  ELSE LET S == SetOf(o.L)
           pos == PosMap(o.L)
       IN {pos[m] : m \in {x \in KeyMembers(c, S, o.I, k) : x[1] = o.L[first][1]}}

LnShape(e, o, r) ==
  LET R == e.R[r]
      ne == o.cut[r + 1] - o.cut[r]
      V == Len(NodeSpecs(e.deg))
  IN /\ R.deg = e.deg /\ R.vn = V /\ R.ne = ne
     /\ Len(R.en) = V * ne /\ Len(R.fc) = ne
     /\ R.oc >= 0 /\ R.oc <= R.n /\ Len(R.nl) = R.n - R.oc
     /\ \A i \in 1..Len(R.en) : R.en[i] >= 0 /\ R.en[i] < R.n
     /\ R.goc = [p \in Procs(e) |-> e.R[p].oc]
     /\ R.off = PrefixSums(R.goc)[r]

(***************************************************************************)
(* Sharing of nodes: what the ranks agree on (C13 and, for columns, C29).  *)
(***************************************************************************)
SharersOk(e, pid) ==
     \E G \in {[r \in Procs(e) |-> GSeq(e.R[r])]} :
     \E GS \in {[r \in Procs(e) |-> SetOf(G[r])]} :
     \E idx \in {[r \in Procs(e) |-> [g \in GS[r] |-> CHOOSE i \in 1..Len(G[r]) : G[r][i] = g]]} :
     \E own \in {[r \in Procs(e) |-> {i \in 1..e.R[r].n : i <= e.R[r].oc}]} :
     \A r \in Procs(e) :
       LET R == e.R[r]
           with(p) == IF p = r THEN UNION {GS[r] \cap GS[z] : z \in Procs(e) \ {r}}
                      ELSE GS[r] \cap GS[p]
           peers == {p \in Procs(e) : p # r /\ with(p) # {}}
           ranks == [i \in 1..Len(R.sh) |-> R.sh[i][1]]
           glob(i) == [z \in 1..Len(R.sh[i][2]) |-> G[r][R.sh[i][2][z] + 1]]
       IN /\ Clause(e, pid, "sharer-ranks-sorted-with-self",
               ranks = SelectSeq([p \in Procs(e) |-> p - 1],
                         LAMBDA p : (p + 1) \in peers \/ (p + 1 = r /\ peers # {})))
          /\ Clause(e, pid, "shared-nodes", \A i \in 1..Len(R.sh) :
               IsPermOf(glob(i), with(R.sh[i][1] + 1)))
          /\ Clause(e, pid, "shared-order-agrees", \A i \in 1..Len(R.sh) :
               LET p == R.sh[i][1] + 1 IN p = r \/
               \E k \in 1..Len(e.R[p].sh) : e.R[p].sh[k][1] = r - 1
                  /\ glob(i) = [z \in 1..Len(e.R[p].sh[k][2]) |-> G[p][e.R[p].sh[k][2][z] + 1]])
          /\ Clause(e, pid, "mine-section", \A i \in 1..Len(R.sh) :
               LET x == R.sh[i] IN
               {z \in 1..Len(x[2]) : x[2][z] < R.oc} =
                  IF x[4] = 0 THEN {} ELSE (x[3] + 1)..(x[3] + x[4]))
          /\ Clause(e, pid, "owned-section", \A i \in 1..Len(R.sh) :
               LET x == R.sh[i]
                   p == x[1] + 1
                   mine == {z \in 1..R.n : e.R[p].off <= G[r][z] /\ G[r][z] < e.R[p].off + e.R[p].oc}
               IN IF mine = {} THEN x[6] = 0
                  ELSE mine = (x[5] + 1)..(x[5] + x[6]))
          /\ Clause(e, pid, "share-owned", \A z \in 1..R.n :
               LET p == CHOOSE w \in Procs(e) :
                          e.R[w].off <= G[r][z] /\ G[r][z] < e.R[w].off + e.R[w].oc
               IN R.so[z] = p * 100000 + (G[r][z] - e.R[p].off))
          /\ Clause(e, pid, "share-all",
               /\ Len(R.sa) = Len(R.sh)
               /\ \A i \in 1..Len(R.sh) :
                    LET p == R.sh[i][1] + 1 IN
                    IF p = r THEN R.sa[i] = <<>>
                    ELSE R.sa[i] = [z \in 1..Len(R.sh[i][2]) |->
                           IF glob(i)[z] \in GS[p] THEN p * 100000 + idx[p][glob(i)[z]] - 1 ELSE -2])

DoLnodes(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ Is({"C12", "C13"}) =>
     \E o \in {fs[e.s]} : \E c \in {cs[o.cs]} :
     \E shape \in {\A r \in Procs(e) : LnShape(e, o, r)} :
       /\ Clause(e, "C12", "shape", shape)
       /\ (shape /\ Directed(c, o.L) /\ Is({"C12"})) =>
            \E M \in {NodeMesh(c, o.L, o.I, e.deg)} :
            \E G \in {[r \in Procs(e) |-> GSeq(e.R[r])]} :
            \E V \in {Len(NodeSpecs(e.deg))} :
            \E loc \in {[r \in Procs(e) |-> UNION {SetOf(M.key[i]) : i \in LocPos(o, r)}]} :
            \E pairs \in {UNION {UNION {{<<M.key[o.cut[r] + i][v], G[r][e.R[r].en[(i - 1) * V + v] + 1]>> :
                             v \in 1..V} : i \in 1..(o.cut[r + 1] - o.cut[r])} : r \in Procs(e)}} :
            \E total \in {PrefixSums(e.R[1].goc)[e.P + 1]} :
            \E keys \in {{p[1] : p \in pairs}} :
              /\ Clause(e, "C12", "hanging-code", \A r \in Procs(e) :
                   \A i \in 1..(o.cut[r + 1] - o.cut[r]) :
                     LET k == o.cut[r] + i IN
                     \/ e.R[r].fc[i] = FaceCode(o.L[k], M.hf[k], M.he[k])
                     \/ DIM = 3 /\ e.deg = -1   \* no edge nodes: edges are not coded
                        /\ (IF e.R[r].fc[i] = <<>> THEN {}
                            ELSE {f \in 0..(NF - 1) : e.R[r].fc[i][f + 1] # -1}) = M.hf[k]
                        /\ \A f \in M.hf[k] : e.R[r].fc[i][f + 1] = FaceCode(o.L[k], M.hf[k], {})[f + 1])
              /\ Clause(e, "C12", "one-number-per-node", Cardinality(pairs) = Cardinality(keys))
              /\ Clause(e, "C12", "one-node-per-number",
                   Cardinality(pairs) = Cardinality({p[2] : p \in pairs}))
              /\ Clause(e, "C12", "numbers-contiguous",
                   {p[2] : p \in pairs} = 0..(total - 1))
              /\ Clause(e, "C12", "local-nodes-are-the-referenced-ones", \A r \in Procs(e) :
                   /\ e.R[r].n = Cardinality(loc[r])
                   /\ SetOf(e.R[r].en) = 0..(e.R[r].n - 1)
                   /\ NoDup(G[r]))
              /\ Clause(e, "C12", "owner-is-first-touching-element",
                   \E self \in {{t \in 0..(c.nt - 1) : SelfGlued(c, t)}} :
                   \A p \in pairs : \E f \in {FirstOf(M, p[1])} \cup SelfFirsts(c, o, self, p[1], FirstOf(M, p[1])) :
                     LET r == OwnerOf(o.cut, f - 1) + 1
                     IN e.R[r].off <= p[2] /\ p[2] < e.R[r].off + e.R[r].oc)
       /\ (shape /\ Is({"C13"})) => SharersOk(e, "C13")

\* ghost layers by node support
DoLnGhost(e) ==
  /\ Keep(e)
  /\ \E x \in {aux.gh[e.g]} : \E o \in {fs[x.s]} : \E c \in {cs[o.cs]} :
     \E judged \in {Is({"C13"}) /\ Directed(c, o.L)} :
     \E M \in {IF judged THEN NodeMesh(c, o.L, o.I, e.deg) ELSE [key |-> <<>>]} :
     \E ks \in {[i \in 1..Len(M.key) |-> SetOf(M.key[i])]} :
     \E G \in {IF ~judged THEN x.G ELSE
               [r \in 1..o.P |->
                  LET lp == LocPos(o, r)
                      near(Q) == UNION {ks[i] : i \in Q}
                  IN IF e.x < 0
                     THEN LET m == near(lp) IN x.G[r] \cup {j \in (1..Len(o.L)) \ lp : ks[j] \cap m # {}}
                     ELSE x.G[r] \cup UNION {
                            LET m == near(x.G[r] \cap LocPos(o, p))
                            IN {j \in (LocPos(o, p) \cup x.G[p]) \ lp : ks[j] \cap m # {}}
                            : p \in Procs(e) \ {r}}]} :
       /\ judged =>
          /\ Clause(e, "C13", IF e.x < 0 THEN "ghosts-support-the-nodes" ELSE "ghosts-expanded-by-nodes",
               \A r \in Procs(e) : GhostMatches(o, c, G, e.R[r], r))
          /\ Clause(e, "C13", "ghost-self-check", \A r \in Procs(e) : e.R[r].val = 1)
       /\ aux' = [aux EXCEPT !.gh = (e.g :> [x EXCEPT !.G = G, !.R = e.R, !.n = x.n + 1]) @@ aux.gh]

(***************************************************************************)
(* Corner nodes with hanging dependencies (C14).                           *)
(***************************************************************************)
MaxOf(X) == CHOOSE a \in X : \A b \in X : b <= a
PopCount(n) == Cardinality({b \in 0..2 : (n \div (2 ^ b)) % 2 = 1})
\* corner k of q as <<tree, coordinates>>
NodeAt(q, k) == <<q[1]>> \o [a \in Axes |-> q[2 + a] + Bit(k, a) * H(q)]
Images(c, q, k) == {NodeAt(x[1], x[2]) : x \in PointKey(c, q, k)}
Clamped(p) == MkQ(p[1], 30, LAMBDA a : IF p[1 + a] = ROOT THEN ROOT - 1 ELSE p[1 + a])
\* the lowest tree owns a node; its first position there if there are several
LowestImage(X) == CHOOSE p \in X : \A z \in X : z = p \/ ~QLess(Clamped(z), Clamped(p))
\* the leaf that owns a node
NodeLeaf(L, pos, p) ==
  LET x == Clamped(p)
      cell == MkQ(x[1], QMAXL, LAMBDA a : x[2 + a] - (x[2 + a] % 2))
  IN pos[CHOOSE m \in LeafOver(SetOf(L), cell) : TRUE]
\* does corner k of q hang, given the resolved element: 0 no, 1 face, 2 edge
HangKind(q, y, k) ==
  IF y = q \/ k = Cid(q) THEN 0
  ELSE IF DIM = 2 THEN 1 ELSE IF PopCount(k ^^ Cid(q)) = 2 THEN 1 ELSE 2
\* the corners whose resolved nodes a hanging corner depends on
HangDeps(q, y, k) ==
  LET d == k ^^ Cid(q) IN {m \in Cids : \A a \in Axes : Bit(d, a) = 0 => Bit(m, a) = Bit(k, a)}

NodesShape(e, o, r) ==
  LET R == e.R[r]
      ne == o.cut[r + 1] - o.cut[r]
      ni == Len(R.in)
      nt == ni + Len(R.fh) + Len(R.eh)
  IN /\ R.nq = ne /\ Len(R.ln) = NC * ne
     /\ \A i \in 1..Len(R.ln) : R.ln[i] >= 0 /\ R.ln[i] < nt
     /\ R.oc >= 0 /\ R.oo >= 0 /\ R.oo + R.oc <= ni
     /\ Len(R.sh) = ni
     /\ \A i \in 1..ni : R.in[i][DIM + 4] = Len(R.sh[i]) \/ e.g < 0
     /\ e.g < 0 \/ (Len(R.nr) = ni - R.oc /\ R.goc = [p \in Procs(e) |-> e.R[p].oc])

InPos(x) == <<x[1]>> \o [a \in Axes |-> x[1 + a]]

\* without a ghost layer: nodes are matched inside a tree of a process only
DoNodesLocal(e) ==
  \E o \in {fs[e.s]} :
  \E shape \in {\A r \in Procs(e) : NodesShape(e, o, r)} :
    /\ Clause(e, "C14", "shape", shape)
    /\ shape =>
       \A r \in Procs(e) :
         LET R == e.R[r]
             pairs == UNION {{<<NodeAt(o.L[o.cut[r] + i], k), R.ln[NC * (i - 1) + k + 1]>> : k \in Cids}
                             : i \in 1..(o.cut[r + 1] - o.cut[r])}
         IN /\ Clause(e, "C14", "local-nodes-are-independent",
                 /\ R.fh = <<>> /\ R.eh = <<>> /\ R.goc = <<>> /\ R.nr = <<>>
                 /\ R.oc = Len(R.in) /\ R.oo = 0 /\ R.os = 0
                 /\ \A i \in 1..Len(R.sh) : R.sh[i] = <<>>)
            /\ Clause(e, "C14", "local-corner-position",
                 \A p \in pairs : InPos(R.in[p[2] + 1]) = p[1])
            /\ Clause(e, "C14", "local-corner-unique",
                 /\ {p[2] : p \in pairs} = 0..(Len(R.in) - 1)
                 /\ e.x = 1 => Cardinality({p[1] : p \in pairs}) = Len(R.in))
            /\ Clause(e, "C14", "self-check", R.val = 1)

DoNodesGhost(e) ==
  \E o \in {fs[e.s]} : \E c \in {cs[o.cs]} :
  \E shape \in {\A r \in Procs(e) : NodesShape(e, o, r)} :
    /\ Clause(e, "C14", "shape", shape)
    /\ shape =>
       \E S \in {SetOf(o.L)} : \E pos \in {PosMap(o.L)} :
       \E hf \in {[i \in 1..Len(o.L) |-> FHangSet(c, S, o.L[i])]} :
       \E he \in {[i \in 1..Len(o.L) |-> IF DIM = 3 THEN EHangSet(c, S, o.L[i]) ELSE {}]} :
       \E res \in {[i \in 1..Len(o.L) |-> [k \in Cids |-> Resolve(o.L[i], hf[i], he[i], 3, k)]]} :
       \E hk \in {[i \in 1..Len(o.L) |-> [k \in Cids |-> HangKind(o.L[i], res[i][k], k)]]} :
       \E ats \in {UNION {UNION {{NodeAt(res[i][k], k), NodeAt(o.L[i], k)} : k \in Cids} : i \in 1..Len(o.L)}} :
       \E rep \in {[p \in ats |-> CHOOSE z \in {<<o.L[i], k>> : i \in 1..Len(o.L), k \in Cids}
                                  \cup {<<res[i][k], k>> : i \in 1..Len(o.L), k \in Cids} : NodeAt(z[1], z[2]) = p]} :
       \E low \in {[p \in ats |-> LowestImage(Images(c, rep[p][1], rep[p][2]))]} :
       \E ind \in {[i \in 1..Len(o.L) |-> [k \in Cids |-> low[NodeAt(res[i][k], k)]]]} :
       \E own \in {[p \in UNION {{ind[i][k] : k \in Cids} : i \in 1..Len(o.L)} |->
                      OwnerOf(o.cut, NodeLeaf(o.L, pos, p) - 1) + 1]} :
       \E loc \in {[r \in Procs(e) |-> UNION {{ind[i][k] : k \in Cids} : i \in LocPos(o, r)}]} :
       \E at \in {[r \in Procs(e) |-> [i \in 1..Len(e.R[r].in) |-> InPos(e.R[r].in[i])]]} :
       \E okset \in {\A r \in Procs(e) : IsPermOf(at[r], loc[r])} :
         /\ Clause(e, "C14", "independent-nodes", okset)
         /\ Clause(e, "C14", "self-check", \A r \in Procs(e) : e.R[r].val = 1)
         /\ okset =>
            \A r \in Procs(e) :
              LET R == e.R[r]
                  ni == Len(R.in)
                  nf == Len(R.fh)
                  leafs == 1..(o.cut[r + 1] - o.cut[r])
                  lnx(i, k) == R.ln[NC * (i - 1) + k + 1]
                  Dep(x) == {at[r][x[DIM + 3][z] + 1] : z \in 1..Len(x[DIM + 3])}
                  \* <<kind, index, leaf, corner>> of the hanging corners
                  hang == UNION {{<<hk[o.cut[r] + i][k], lnx(i, k), o.cut[r] + i, k>> : k \in {y \in Cids : hk[o.cut[r] + i][y] > 0}} : i \in leafs}
                  rank(i) == IF i > R.oo /\ i <= R.oo + R.oc THEN r
                             ELSE R.nr[IF i <= R.oo THEN i ELSE i - R.oc] + 1
                  uses(p) == {z \in Procs(e) : p \in loc[z]}
              IN /\ Clause(e, "C14", "corner-table", \A i \in leafs : \A k \in Cids :
                       IF hk[o.cut[r] + i][k] = 0
                       THEN lnx(i, k) < ni /\ at[r][lnx(i, k) + 1] = ind[o.cut[r] + i][k]
                       ELSE lnx(i, k) >= ni /\ (IF hk[o.cut[r] + i][k] = 1 THEN lnx(i, k) < ni + nf ELSE lnx(i, k) >= ni + nf))
                 /\ Clause(e, "C14", "dependencies-in-range",
                       \A x \in SetOf(R.fh) \cup SetOf(R.eh) : \A z \in 1..Len(x[DIM + 3]) :
                         x[DIM + 3][z] >= 0 /\ x[DIM + 3][z] < ni)
                 /\ Clause(e, "C14", "hanging-nodes", \A h \in hang :
                       LET x == IF h[1] = 1 THEN R.fh[h[2] - ni + 1] ELSE R.eh[h[2] - ni - nf + 1]
                           q == o.L[h[3]]
                       IN /\ InPos(x) = low[NodeAt(q, h[4])]
                          /\ SetOf(x[DIM + 3]) = {z - 1 : z \in {i \in 1..ni :
                                at[r][i] \in {ind[h[3]][m] : m \in HangDeps(q, res[h[3]][h[4]], h[4])}}}
                          /\ Len(x[DIM + 3]) = (IF h[1] = 1 THEN 2 ^ (DIM - 1) ELSE 2))
                 /\ Clause(e, "C14", "hanging-nodes-unique",
                       /\ {h[2] : h \in hang} = ni..(ni + nf + Len(R.eh) - 1)
                       /\ Cardinality({<<h[1], low[NodeAt(o.L[h[3]], h[4])]>> : h \in hang}) = nf + Len(R.eh))
                 /\ Clause(e, "C14", "owner", \A i \in 1..ni : rank(i) = own[at[r][i]])
                 /\ Clause(e, "C14", "number-at-owner", \A i \in 1..ni :
                       LET p == rank(i)
                           j == e.R[p].oo + R.in[i][DIM + 3] + 1
                       IN R.in[i][DIM + 3] >= 0 /\ R.in[i][DIM + 3] < e.R[p].oc /\ at[p][j] = at[r][i])
                 /\ Clause(e, "C14", "sharers", \A i \in 1..ni :
                       IsPermOf(R.sh[i], {z - 1 : z \in uses(at[r][i]) \ {r}}))
                 /\ Clause(e, "C14", "owned-shared-count",
                       R.os = Cardinality({i \in (R.oo + 1)..(R.oo + R.oc) : R.sh[i] # <<>>}))

DoNodes(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ Is({"C14"}) => IF e.g < 0 THEN DoNodesLocal(e) ELSE DoNodesGhost(e)

(***************************************************************************)
(* Partition weighted by the nodes every leaf owns: the entity counts for  *)
(* the first leaf around it (C05, C06).  Balanced forests.                 *)
(***************************************************************************)
OwnWeights(c, o, e) ==
  LET S == TLCEval(SetOf(o.L))
      pos == TLCEval(PosMap(o.L))
      low(X) == CHOOSE a \in X : \A b \in X : a <= b
      ff == TLCEval(IF e.nf = 0 THEN <<>> ELSE
              [E \in FaceEnts(c, S, o.I) |-> low({pos[m] : m \in UNION {SetOf(FaceMembers(S, o.I, v)) : v \in E}})])
      ef == TLCEval(IF e.ne = 0 \/ DIM = 2 THEN <<>> ELSE
              [E \in EdgeEnts(c, S, o.I) |-> low({pos[m] : m \in UNION {SetOf(EdgeMembers(S, o.I, v)) : v \in E}})])
      cf == TLCEval(IF e.nc = 0 THEN <<>> ELSE
              [E \in CornerEnts(c, S) |-> low({pos[m[1]] : m \in CornerMembers(S, E)})])
      cnt(F, i) == Cardinality({E \in DOMAIN F : F[E] = i})
  IN [i \in 1..Len(o.L) |-> e.nv + e.nf * cnt(ff, i) + e.ne * cnt(ef, i) + e.nc * cnt(cf, i)]
DoPlnodes(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} : \E c \in {cs[o.cs]} :
     \E judged \in {Is({"C05", "C06"}) /\ Directed(c, o.L) /\ \A t \in 0..(c.nt - 1) : ~SelfGlued(c, t)} :
     \E w \in {IF judged THEN OwnWeights(c, o, e) ELSE <<>>} :
     \E allzero \in {\A i \in 1..Len(w) : w[i] = 0} :
     \E base \in {IF e.P = 1 \/ allzero THEN o.cut ELSE WeightCut(w, 1, e.P)} :
     \E wnt \in {IF e.pfc = 1 /\ e.P > 1 /\ ~allzero THEN PfcCut(o.L, base) ELSE base} :
     LET
         Cl(L, n) ==
           /\ Clause(e, "C05", "sequence-kept", L = o.L)
           /\ Clause(e, IF e.pfc = 1 THEN "C06" ELSE "C05", "cuts-by-owned-nodes", judged => n.cut = wnt)
           /\ Clause(e, "C05", "user-pointer-kept", \A r \in Procs(e) : e.R[r].up = 1)
           /\ Clause(e, "C01", "revision-partition", RevOk(e, o, n, n.cut # o.cut))
           /\ Clause(e, "C08", "partition-data", o.dsz > 0 => n.V = o.V)
     IN WithPost(e, e.s, o.cs, Cl)

NodeOp(e) ==
  CASE e.k = "lnodes" -> DoLnodes(e)
    [] e.k = "lnghost" -> DoLnGhost(e)
    [] e.k = "nodes" -> DoNodes(e)
    [] e.k = "plnodes" -> DoPlnodes(e)
NodeKinds == {"plnodes", "lnodes", "lnghost", "nodes"}
=============================================================================
