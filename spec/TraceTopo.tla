------------------------------ MODULE TraceTopo -----------------------------
(***************************************************************************)
(* C20: the tables of a connectivity are the closure of the identification *)
(* they are to represent.  C21: every transformation between the frames of *)
(* two trees maps a point, a box or a number to the one that it coincides  *)
(* with.                                                                   *)
(***************************************************************************)
EXTENDS TraceBits

Trees(c) == 0..(c.nt - 1)
Edges == 0..(NE - 1)
Faces == 0..(NF - 1)

(***************************************************************************)
(* What meets a tree in an edge or corner without meeting it in a larger   *)
(* object there.                                                           *)
(***************************************************************************)
EdgeFaceImages(c, t, e) ==
  {EdgeAcross(c, t, f, e) : f \in {g \in Faces : e \in FEd[g] /\ ~IsBnd(c, t, g)}}
EdgeDiag(c, t, e) == c.eo[t][e] \ ({<<t, e, 0>>} \cup EdgeFaceImages(c, t, e))
CornerDiag(c, t, k) ==
  c.co[t][k] \ ({<<t, k>>} \cup CnFaceNb(c, <<t, k>>) \cup (IF DIM = 3 THEN CnEdgeNb(c, <<t, k>>) ELSE {}))

NoRepeat(g) == Cardinality(Range(g)) = Len(g)
\* an edge (corner) is listed if and only if it connects trees that do not
\* meet in something larger there, and the entry is complete
EdgeGroupsOk(e, c) ==
  /\ \A i \in 1..Len(e.eg) : NoRepeat(e.eg[i])
  /\ \A t \in Trees(c) : \A x \in Edges :
       LET orb == EdgePairs(c, t, x)
           has == e.tte # <<>> /\ e.tte[t + 1][x + 1] >= 0
       IN IF has THEN {<<g[1], g[2]>> : g \in Range(e.eg[e.tte[t + 1][x + 1] + 1])} = orb
          ELSE \A y \in orb : EdgeDiag(c, y[1], y[2]) = {}
CornerGroupsOk(e, c) ==
  /\ \A i \in 1..Len(e.cg) : NoRepeat(e.cg[i])
  /\ \A t \in Trees(c) : \A k \in Cids :
       LET orb == c.co[t][k]
           has == e.ttc # <<>> /\ e.ttc[t + 1][k + 1] >= 0
       IN IF has THEN Range(e.cg[e.ttc[t + 1][k + 1] + 1]) = orb
          ELSE \A y \in orb : CornerDiag(c, y[1], y[2]) = {}
TopoGroupsOk(e, c) == (DIM = 3 => EdgeGroupsOk(e, c)) /\ CornerGroupsOk(e, c)

(***************************************************************************)
(* Topology by shared vertices (where no tree uses a vertex twice and no   *)
(* three faces have the same vertices).                                    *)
(***************************************************************************)
FaceVerts(e, t, f) == [i \in 1..NFC |-> e.ttv[t + 1][FCn[f][i] + 1]]
\* the corners at every vertex
VertexCorners(e) ==
  LET A == (0..(e.nt - 1)) \X Cids
  IN TLCEval([v \in 0..(e.nv - 1) |-> {z \in A : e.ttv[z[1] + 1][z[2] + 1] = v}])
\* all faces with these vertices
FacesWith(e, G, vs) ==
  {y \in UNION {{<<z[1], f>> : f \in CornerFaces(z[2])} : z \in G[vs[1]]} : Range(FaceVerts(e, y[1], y[2])) = Range(vs)}
ByVertices(e) ==
  /\ e.ttv # <<>>
  /\ \A t \in 1..e.nt : Cardinality(Range(e.ttv[t])) = NC
  /\ LET G == VertexCorners(e)
     IN \A t \in 0..(e.nt - 1) : \A f \in Faces : Cardinality(FacesWith(e, G, FaceVerts(e, t, f))) <= 2
FromVertices(e, c) ==
  LET G == VertexCorners(e)
      ev(s, y) == <<e.ttv[s + 1][ECn[y][1] + 1], e.ttv[s + 1][ECn[y][2] + 1]>>
  IN
  /\ \A t \in Trees(c) : \A f \in Faces :
       LET x == <<t, f>>
           vx == FaceVerts(e, t, f)
           N == FacesWith(e, G, vx) \ {x}
           n == FNb(c, t, f)
       IN IF N = {} THEN n = <<t, f, 0>>
          ELSE LET y == CHOOSE y \in N : TRUE
                   lo == IF f <= y[2] THEN vx ELSE FaceVerts(e, y[1], y[2])
                   hi == IF f <= y[2] THEN FaceVerts(e, y[1], y[2]) ELSE vx
               IN n = <<y[1], y[2], (CHOOSE i \in 1..NFC : hi[i] = lo[1]) - 1>>
  /\ \A t \in Trees(c) : \A k \in Cids : c.co[t][k] = G[e.ttv[t + 1][k + 1]]
  /\ \A t \in Trees(c) : \A x \in Edges :
       LET v == ev(t, x)
           near == UNION {{<<z[1], y>> : y \in CornerEdges(z[2])} : z \in G[v[1]]}
       IN c.eo[t][x] = {<<z[1], z[2], 0>> : z \in {z \in near : ev(z[1], z[2]) = v}}
                       \cup {<<z[1], z[2], 1>> : z \in {z \in near : ev(z[1], z[2]) = <<v[2], v[1]>>}}

(***************************************************************************)
(* The predefined connectivities, by what they claim to be.                *)
(***************************************************************************)
NumBnd(c) == Cardinality({<<t, f>> \in Trees(c) \X Faces : IsBnd(c, t, f)})
NumFaces(c) == (NF * c.nt - NumBnd(c)) \div 2 + NumBnd(c)
NumEdges(c) == Cardinality({EdgePairs(c, t, e) : t \in Trees(c), e \in Edges})
NumCorners(c) == Cardinality({c.co[t][k] : t \in Trees(c), k \in Cids})
Euler(c) == IF DIM = 2 THEN NumCorners(c) - NumFaces(c) + c.nt
            ELSE NumCorners(c) - NumEdges(c) + NumFaces(c) - c.nt
Connected(c) ==
  LET near(t) == UNION {{x[1] : x \in c.co[t][k]} : k \in Cids}
      RECURSIVE Go(_, _)
      Go(fr, acc) == LET nw == (UNION {near(t) : t \in fr}) \ acc IN IF nw = {} THEN acc ELSE Go(nw, acc \cup nw)
  IN Go({0}, {0}) = Trees(c)
\* 2D: can all trees be given a side
FaceTwist(c, t, f) ==     \* 1: the gluing keeps the sense of rotation
  LET n == FNb(c, t, f)
      sg(g) == IF g \in {0, 3} THEN 0 ELSE 1     \* face direction against the rotation
  IN (1 + sg(f) + sg(n[2]) + n[3]) % 2
Orientable(c) ==
  LET step(x) == {<<FNb(c, x[1], f)[1], (x[2] + FaceTwist(c, x[1], f)) % 2>> : f \in {g \in Faces : ~IsBnd(c, x[1], g)}}
  IN \A t \in Trees(c) : <<t, 1>> \notin Closure(step, <<t, 0>>)

\* <<trees, boundary faces, Euler characteristic, orientable (2D)>>; -1: not stated
Named(nm, a) ==
  IF DIM = 2 THEN
   CASE nm = "unit" -> <<1, 4, 1, 1>> [] nm = "periodic" -> <<1, 0, 0, 1>> [] nm = "rotwrap" -> <<1, 0, 0, 0>>
     [] nm = "corner" -> <<3, 6, 1, 1>> [] nm = "pillow" -> <<2, 0, 2, 1>> [] nm = "moebius" -> <<5, 10, 0, 0>>
     [] nm = "star" -> <<6, 12, 1, 1>> [] nm = "cubed" -> <<6, 0, 2, 1>> [] nm = "disk" -> <<5, 4, 1, 1>>
     [] nm = "diskp" -> <<5, 4 - 2 * a[1] - 2 * a[2], IF a[1] + a[2] = 0 THEN 1 ELSE 0, 1>>
     [] nm = "icosahedron" -> <<10, 0, 2, 1>> [] nm = "shell2d" -> <<8, 16, 0, 1>> [] nm = "disk2d" -> <<5, 4, 1, 1>>
     [] nm = "bowtie" -> <<2, 8, 1, 1>> [] nm = "circle" -> <<6, 12, 0, 1>> [] nm = "drop" -> <<5, -1, 0, 1>>
     [] nm = "brick23" -> <<6, 10, 1, 1>>
     [] nm = "brick" -> <<a[1] * a[2], (IF a[3] = 0 THEN 2 * a[2] ELSE 0) + (IF a[4] = 0 THEN 2 * a[1] ELSE 0),
                          IF a[3] + a[4] = 0 THEN 1 ELSE 0, 1>>
     [] nm = "twotrees" -> <<2, 6, 1, -1>>
     [] OTHER -> <<-1, -1, -1, -1>>
  ELSE
   CASE nm = "unit" -> <<1, 6, 1, -1>> [] nm = "periodic" -> <<1, 0, 0, -1>> [] nm = "rotwrap" -> <<1, 2, 0, -1>>
     [] nm = "drop" -> <<5, -1, 0, -1>> [] nm = "twocubes" -> <<2, 10, 1, -1>> [] nm = "twowrap" -> <<2, 8, 0, -1>>
     [] nm = "pillow" -> <<2, 4, 2, -1>> [] nm = "shell" -> <<24, 48, 2, -1>> [] nm = "sphere" -> <<13, 6, 1, -1>>
     [] nm = "torus" -> <<5 * a[1], 4 * a[1], 0, -1>> [] nm = "brick235" -> <<30, 62, 1, -1>>
     [] nm = "brick" -> <<a[1] * a[2] * a[3], (IF a[4] = 0 THEN 2 * a[2] * a[3] ELSE 0) + (IF a[5] = 0 THEN 2 * a[1] * a[3] ELSE 0)
                           + (IF a[6] = 0 THEN 2 * a[1] * a[2] ELSE 0), IF a[4] + a[5] + a[6] = 0 THEN 1 ELSE 0, -1>>
     [] nm = "twotrees" -> <<2, 10, 1, -1>>
     [] OTHER -> <<-1, -1, -1, -1>>
NamedOk(e, c) ==
  LET s == Named(e.nm, e.args) IN
  /\ s[1] = -1 \/ (c.nt = s[1] /\ Connected(c))
  /\ s[2] = -1 \/ NumBnd(c) = s[2]
  /\ s[3] = -1 \/ Euler(c) = s[3]
  /\ s[4] = -1 \/ Orientable(c) = (s[4] = 1)
  /\ e.nm = "twotrees" =>
       /\ FNb(c, 0, e.args[1]) = <<1, e.args[2], e.args[3]>>
       /\ e.eg = <<>> /\ e.cg = <<>>
  /\ e.nm = "brick" =>
       LET w == [ax \in Axes |-> e.args[ax]]
           per == [ax \in Axes |-> e.args[DIM + ax] = 1]
           lo(t) == [ax \in Axes |-> e.vx[e.ttv[t + 1][1] + 1][ax]]
           up(t, k) == [ax \in Axes |-> e.vx[e.ttv[t + 1][k + 1] + 1][ax]]
       IN /\ \A t \in Trees(c) : \A ax \in Axes : lo(t)[ax] \in 0..(w[ax] - 1)
          /\ Cardinality({lo(t) : t \in Trees(c)}) = c.nt
          /\ \A t \in Trees(c) : \A k \in Cids : up(t, k) = [ax \in Axes |-> lo(t)[ax] + Bit(k, ax)]
          /\ \A t \in Trees(c) : \A f \in Faces :
               LET ax == FAxis(f)
                   p == lo(t)[ax] + 2 * FSide(f) - 1
                   inside == p >= 0 /\ p < w[ax]
                   to == [lo(t) EXCEPT ![ax] = (p + w[ax]) % w[ax]]
                   n == FNb(c, t, f)
               IN IF ~inside /\ ~per[ax] THEN n = <<t, f, 0>>
                  ELSE n[2] = Opp(f) /\ n[3] = 0 /\ lo(n[1]) = to

ConnClauses(e, c) ==
  Is({"C20"}) =>
  /\ Clause(e, "C20", "valid", e.val = 1)
  /\ IF DIM = 3 /\ Degenerate(c) THEN TRUE ELSE
     (/\ Clause(e, "C20", "groups-complete", TopoGroupsOk(e, c))
      /\ "nm" \in DOMAIN e => Clause(e, "C20", "predefined", NamedOk(e, c))
      /\ "nm" \in DOMAIN e /\ e.nm \in {"rot", "tets"} => Clause(e, "C20", "shared-vertices", FromVertices(e, c)))

(***************************************************************************)
(* Operations on connectivities.                                           *)
(***************************************************************************)
SameTables(c, d) == c.nt = d.nt /\ c.ttt = d.ttt /\ c.ttf = d.ttf
SameTopo(c, d) == SameTables(c, d) /\ c.eo = d.eo /\ c.co = d.co

JoinLo(c, j) == j[3] <= j[4]
Joined(c, j) ==     \* j: two trees, two faces, orientation
  LET put(tab, v) == [t \in 1..c.nt |-> [f \in 1..NF |->
         IF t = j[1] + 1 /\ f = j[3] + 1 THEN v[1]
         ELSE IF t = j[2] + 1 /\ f = j[4] + 1 THEN v[2] ELSE tab[t][f]]]
  IN MkConn(c.nt, put(c.ttt, <<j[2], j[1]>>), put(c.ttf, <<j[4] + NF * j[5], j[3] + NF * j[5]>>), c.eg, c.cg)

Permuted(c, pm) ==    \* pm[t]: new number of tree t
  LET old(t) == CHOOSE s \in Trees(c) : pm[s + 1] = t
      ord == TLCEval([t \in 1..c.nt |-> old(t - 1) + 1])
  IN MkConn(c.nt, [t \in 1..c.nt |-> [f \in 1..NF |-> pm[c.ttt[ord[t]][f] + 1]]],
            [t \in 1..c.nt |-> c.ttf[ord[t]]],
            {{<<pm[x[1] + 1], x[2], x[3]>> : x \in g} : g \in c.eg},
            {{<<pm[x[1] + 1], x[2]>> : x \in g} : g \in c.cg})

\* points of a lattice of R cells per tree
PAcross(f, nf, o, R, co) ==
  LET ax == FAxis(f)
      depth == IF FSide(f) = 1 THEN co[ax] - R ELSE 0 - co[ax]
      norm == IF FSide(nf) = 0 THEN depth ELSE R - depth
      m == FaceMapT[f][nf][o]
      flip(w) == R - w
  IN IF DIM = 2
     THEN LET u == co[FTang[f][1]] IN [a \in Axes |-> IF a = FAxis(nf) THEN norm ELSE IF o = 0 THEN u ELSE flip(u)]
     ELSE LET b0 == m[1]
              sw == Bit(m[2] ^^ b0, 2) = 1
              uw == co[FTang[f][1]]
              vw == co[FTang[f][2]]
              first == IF sw THEN vw ELSE uw
              second == IF sw THEN uw ELSE vw
          IN [a \in Axes |-> IF a = FAxis(nf) THEN norm
                ELSE IF a = FTang[nf][1] THEN (IF b0 % 2 = 0 THEN first ELSE flip(first))
                ELSE (IF b0 \div 2 = 0 THEN second ELSE flip(second))]
\* all names <<tree, coordinates>> of a lattice point
EdgePoint(e, u, R) ==
  [a \in Axes |-> IF a = EAxis(e) THEN u ELSE Bit(ECn[e][1], a) * R]
PointOrbit(c, t, co, R) ==
  LET B0 == {a \in Axes : co[a] = 0 \/ co[a] = R}
      n == Cardinality(B0)
      side(a) == IF co[a] = 0 THEN 0 ELSE 1
  IN IF n = 0 THEN {<<t, co>>}
     ELSE IF n = DIM THEN
       LET k == FoldLeft(LAMBDA s, a : s + Pow2[a - 1] * side(a), 0, [a \in Axes |-> a])
       IN {<<x[1], [a \in Axes |-> Bit(x[2], a) * R]>> : x \in c.co[t][k]}
     ELSE IF n = 1 THEN
       LET a == CHOOSE a \in B0 : TRUE
           f == 2 * (a - 1) + side(a)
           nb == FNb(c, t, f)
       IN {<<t, co>>} \cup (IF IsBnd(c, t, f) THEN {} ELSE {<<nb[1], PAcross(f, nb[2], nb[3], R, co)>>})
     ELSE LET e == CHOOSE e \in Edges : EAxis(e) \notin B0 /\ \A a \in B0 : Bit(ECn[e][1], a) = side(a)
              u == co[EAxis(e)]
          IN {<<x[1], EdgePoint(x[2], IF x[3] = 0 THEN u ELSE R - u, R)>> : x \in c.eo[t][e]}

\* the cells of a tree on a lattice of n per direction, in Morton order
RECURSIVE MortonCells(_, _)
MortonCells(lv, corner) ==
  IF lv = 0 THEN <<corner>>
  ELSE Flat([k \in 1..NC |-> MortonCells(lv - 1, [a \in Axes |-> corner[a] + Pow2[lv - 1] * Bit(k - 1, a)])])
RefCells(n) ==
  LET lv == CHOOSE i \in 0..5 : Pow2[i] >= n /\ (i = 0 \/ Pow2[i - 1] < n)
  IN SelectSeq(MortonCells(lv, [a \in Axes |-> 0]), LAMBDA x : \A a \in Axes : x[a] < n)

\* new tree number i (from 1): which lattice point each corner is
RefinedOk(e, c) ==
  LET n == e.n
      cells == TLCEval(RefCells(n))
      m == Len(cells)
      pt(i, k) == LET x == cells[((i - 1) % m) + 1] IN [a \in Axes |-> x[a] + Bit(k, a)]
      tr(i) == (i - 1) \div m
      orb == TLCEval([t \in Trees(c) |-> TLCEval([x \in {[a \in Axes |-> pt(i, k)[a]] : i \in 1..m, k \in Cids}
                         |-> PointOrbit(c, t, x, n)])])
      A == (1..e.nt) \X Cids
      vert == TLCEval({<<orb[tr(z[1])][pt(z[1], z[2])], e.ttv[z[1]][z[2] + 1]>> : z \in A})
  IN /\ e.nt = c.nt * m
     \* one vertex for every point
     /\ Cardinality({v[1] : v \in vert}) = Cardinality(vert)
     /\ Cardinality({v[2] : v \in vert}) = Cardinality(vert)
     /\ {v[2] : v \in vert} = 0..(e.nv - 1)

\* a vertex that stands for several identified points has the place of one
RefinedCoords(e, ttv) ==
  e.vx0 = <<>> \/ e.nvx = <<>> \/
  LET n == e.n
      cells == TLCEval(RefCells(n))
      m == Len(cells)
      at(i, k) ==
        LET x == cells[((i - 1) % m) + 1]
            old == ttv[((i - 1) \div m) + 1]
            p == [a \in Axes |-> x[a] + Bit(k, a)]
            w(j) == FoldLeft(LAMBDA s, a : s * (IF Bit(j, a) = 1 THEN p[a] ELSE n - p[a]), 1, [a \in Axes |-> a])
        IN [y \in 1..3 |-> FoldLeft(LAMBDA s, j : s + w(j - 1) * e.vx0[old[j] + 1][y], 0, [j \in 1..NC |-> j])]
  IN {v - 1 : v \in 1..e.nv} = {e.ttv[z[1]][z[2] + 1] : z \in {z \in (1..e.nt) \X Cids : e.nvx[e.ttv[z[1]][z[2] + 1] + 1] = at(z[1], z[2])}}

DoCopTables(e, c, d) ==
  /\ Clause(e, "C20", "tables-consistent", TablesOk(e))
  /\ IF e.what = "reduce" THEN Clause(e, "C20", "valid", e.val = 1) ELSE ConnClauses(e, d)
  /\ LET deg == DIM = 3 /\ Degenerate(d) IN
     IF deg THEN TRUE ELSE (
     \* (the tests look at the groups, which reduction has removed)
     /\ IF e.what = "reduce" THEN TRUE ELSE Clause(e, "C20", "equivalent", e.eqv = B(SameTopo(c, d)) /\ e.eqv2 = e.eqv)
     /\ Clause(e, "C20", "equal-is-equivalent", e.eq = 1 => SameTopo(c, d))
     /\ CASE e.what = "copy" -> Clause(e, "C20", "copy", SameTopo(c, d) /\ e.eq = 1)
          [] e.what = "permute" ->
               LET pm == IF e.dir = 1 THEN e.perm ELSE InvPerm(e.perm)
               IN Clause(e, "C20", "permute", SameTopo(Permuted(c, pm), d) /\ e.pkept = 1)
          [] e.what = "join" -> Clause(e, "C20", "join", SameTopo(IF e.jn = <<>> THEN c ELSE Joined(c, e.jn), d))
          [] e.what = "reduce" -> Clause(e, "C20", "reduce", SameTables(c, d) /\ e.eg = <<>> /\ e.cg = <<>>)
          [] e.what \in {"complete", "redcomp"} -> Clause(e, "C20", "complete", FromVertices(e, d))
          [] e.what = "inp" ->
               /\ Clause(e, "C20", "read-inp", e.ttv # <<>> => e.null = 0 /\ e.vx = e.vx0 /\ e.nt = c.nt)
               /\ (e.ttv # <<>> /\ ByVertices(e)) => Clause(e, "C20", "complete", FromVertices(e, d))
          [] e.what = "refine" -> ByVertices(e) => Clause(e, "C20", "complete", FromVertices(e, d))
          [] OTHER -> FALSE)

\* state of a connectivity slot, with what the tables looked like
DoCop(e) ==
  /\ Step /\ UNCHANGED <<fs, aux>>
  /\ \E c \in {cs[e.c1]} : \E d \in {ConnOf(e)} :
     /\ Clause(e, "C20", "source-kept", e.kept = 1)
     /\ (e.what = "refine" /\ e.ttv0 # <<>>) =>
          /\ Clause(e, "C20", "refine", RefinedOk(e, c))
          /\ Clause(e, "C20", "refine-coordinates", RefinedCoords(e, e.ttv0))
     \* (a known finding: refinement where cells wrap around a tree)
     /\ ~(e.what = "refine" /\ e.ttv0 # <<>> /\ aux.grp >= 0 /\ ~ByVertices(e)) => DoCopTables(e, c, d)
     /\ cs' = (e.cs :> d) @@ cs
     /\ dead' = (DIM = 3 /\ Degenerate(d))

\* groups that no tree refers to do not matter
TablesReached(e) ==
  LET c0 == [nt |-> e.nt, ttt |-> e.ttt, ttf |-> e.ttf]
      cn == IF e.ttc = <<>> THEN {} ELSE UNION {Range(e.ttc[t]) : t \in 1..e.nt} \ {-1}
      ed == IF e.tte = <<>> THEN {} ELSE UNION {Range(e.tte[t]) : t \in 1..e.nt} \ {-1}
  IN /\ FaceInvolution(c0)
     /\ \A g \in cn : {<<x[1], x[2]>> : x \in Range(e.cg[g + 1])} = {x \in (0..(e.nt - 1)) \X Cids : e.ttc[x[1] + 1][x[2] + 1] = g}
     /\ \A g \in ed : {<<x[1], x[2]>> : x \in Range(e.eg[g + 1])} = {x \in (0..(e.nt - 1)) \X Edges : e.tte[x[1] + 1][x[2] + 1] = g}

DoCbad(e) ==
  /\ Step /\ UNCHANGED <<cs, fs, dead, aux>>
  /\ Clause(e, "C20", "valid-only-if-consistent", e.val = 1 => TablesReached(e))
  /\ Clause(e, "C20", "not-equal-if-changed",
       e.eq = 1 => ConnOf(e).ttt = cs[e.cs].ttt /\ ConnOf(e).ttf = cs[e.cs].ttf
                   /\ ToSetOfSeqs(e.eg) = cs[e.cs].eg /\ ToSetOfSeqs(e.cg) = cs[e.cs].cg)

(***************************************************************************)
(* C21.                                                                    *)
(***************************************************************************)
HN(q) == IF q[2] = MAXL THEN 0 ELSE H(q)
FaceImage(c, q, f) ==
  LET nb == FNb(c, q[1], f)
      r == AcrossFace(f, nb[2], nb[3], HN(q), SubSeq(q, 3, 2 + DIM))
  IN MkQ(nb[1], q[2], LAMBDA a : r[a])
\* a box at an edge (corner): inside the tree or diagonally outside of it
AtEdge(t, lv, e, u, ins) ==
  MkQ(t, lv, LAMBDA a : IF a = EAxis(e) THEN u
                       ELSE IF ins = 1 THEN Bit(ECn[e][1], a) * (ROOT - Hl(lv))
                       ELSE IF Bit(ECn[e][1], a) = 1 THEN ROOT ELSE 0 - Hl(lv))
AtCorner(t, lv, k, ins) ==
  MkQ(t, lv, LAMBDA a : IF ins = 1 THEN Bit(k, a) * (ROOT - Hl(lv)) ELSE IF Bit(k, a) = 1 THEN ROOT ELSE 0 - Hl(lv))
PtAt(t, co) == MkQ(t, MAXL, LAMBDA a : co[a])
CoOf(q) == [a \in Axes |-> q[2 + a]]
EdgeU(x, u, h) == IF x[3] = 0 THEN u ELSE (ROOT - h) - u

\* the box next to q in direction of the face, edge or corner
NbBox(q, d) == MkQ(q[1], q[2], LAMBDA a : q[2 + a] + d[a] * H(q))
FDirs(f) == [a \in Axes |-> IF a = FAxis(f) THEN 2 * FSide(f) - 1 ELSE 0]
EDirs(e) == [a \in Axes |-> IF a = EAxis(e) THEN 0 ELSE 2 * Bit(ECn[e][1], a) - 1]
CDirs(k) == [a \in Axes |-> 2 * Bit(k, a) - 1]
OutFace(b) == LET a == CHOOSE a \in Axes : a \in OutsideAxes(b)
              IN 2 * (a - 1) + (IF b[2 + a] < 0 THEN 0 ELSE 1)
OutEdge(b) == CHOOSE e \in Edges : EAxis(e) \notin OutsideAxes(b)
                /\ \A a \in OutsideAxes(b) : Bit(ECn[e][1], a) = B(b[2 + a] >= 0)
OppC(k) == NC - 1 - k
OppE(e) == 4 * (EAxis(e) - 1) + (3 - (e % 4))
\* the corner of the edge neighbour that a corner becomes
CnOver(e, k, x) == IF (k = ECn[e][1]) = (x[3] = 0) THEN ECn[x[2]][1] ELSE ECn[x[2]][2]
EdgeWith(k, ax) == CHOOSE e \in Edges : EAxis(e) = ax /\ k \in {ECn[e][1], ECn[e][2]}

\* expected neighbours as sets of <<box, number>>
ENExtra(c, q, e) ==
  LET b == NbBox(q, EDirs(e))
      out == OutsideAxes(b)
      n == Cardinality(out)
  IN IF n = 0 THEN {<<b, OppE(e)>>}
     ELSE IF n = 1 THEN
       LET f == OutFace(b)
           x == EdgeAcross(c, q[1], f, IF OppE(e) \in FEd[f] THEN OppE(e) ELSE
                  \* the edge of the box opposite to e, seen on the tree face
                  CHOOSE y \in FEd[f] : EAxis(y) = EAxis(e) /\ \A a \in Axes \ {EAxis(e), FAxis(f)} :
                            Bit(ECn[y][1], a) # Bit(ECn[e][1], a))
       IN IF IsBnd(c, q[1], f) THEN {} ELSE {<<FaceImage(c, b, f), x[2] + NE * x[3]>>}
     ELSE {<<AtEdge(x[1], q[2], x[2], EdgeU(x, q[2 + EAxis(e)], H(q)), 1), x[2] + NE * x[3]>> : x \in EdgeDiag(c, q[1], e)}
CNExtra(c, q, k) ==
  LET b == NbBox(q, CDirs(k))
      out == OutsideAxes(b)
      n == Cardinality(out)
  IN IF n = 0 THEN {<<b, OppC(k)>>}
     ELSE IF n = DIM THEN {<<AtCorner(x[1], q[2], x[2], 1), x[2]>> : x \in CornerDiag(c, q[1], k)}
     ELSE IF n = 1 THEN
       LET f == OutFace(b)
           ax == FAxis(f)
           kf == CHOOSE m \in Cids : Bit(m, ax) = Bit(k, ax) /\ \A a \in Axes \ {ax} : Bit(m, a) # Bit(k, a)
       IN IF IsBnd(c, q[1], f) THEN {} ELSE {<<FaceImage(c, b, f), CornerAcross(c, q[1], f, kf)[2]>>}
     ELSE LET e == OutEdge(b)
              ke == CHOOSE m \in {ECn[e][1], ECn[e][2]} : Bit(m, EAxis(e)) # Bit(k, EAxis(e))
          IN {<<AtEdge(x[1], q[2], x[2], EdgeU(x, b[2 + EAxis(e)], H(q)), 1), CnOver(e, ke, x)>> : x \in EdgeDiag(c, q[1], e)}

\* neighbour transformations of an object: <<type, tree, own number, its number>>
FaceNT(c, t, f) == IF IsBnd(c, t, f) THEN <<>> ELSE <<<<1, FNb(c, t, f)[1], f, FNb(c, t, f)[2]>>>>
CFacesSeq(k) == SelectSeq([f \in 1..NF |-> f - 1], LAMBDA f : k \in SetOf(FCn[f]))
EFacesSeq(e) == SelectSeq([f \in 1..NF |-> f - 1], LAMBDA f : e \in FEd[f])
NTs(c, t, ty, ix) ==
  LET fs0 == IF ty = 0 THEN {} ELSE IF ty = 1 THEN {ix} ELSE IF ty = DIM THEN CornerFaces(ix) ELSE {f \in Faces : ix \in FEd[f]}
      es == IF DIM = 2 \/ ty < 2 THEN {} ELSE IF ty = 2 THEN {ix} ELSE CornerEdges(ix)
      ks == IF ty < DIM \/ ty = 0 THEN {} ELSE {ix}
  IN {<<0, t, 0, 0, 0>>}
     \cup {<<1, FNb(c, t, f)[1], f, FNb(c, t, f)[2], 0>> : f \in {g \in fs0 : ~IsBnd(c, t, g)}}
     \cup UNION {{<<2, x[1], e, x[2], x[3]>> : x \in EdgeDiag(c, t, e)} : e \in es}
     \cup UNION {{<<DIM, x[1], k, x[2], 0>> : x \in CornerDiag(c, t, k)} : k \in ks}
NTPoint(c, q, x) ==
  CASE x[1] = 0 -> q
    [] x[1] = 1 -> FaceImage(c, q, x[3])
    [] x[1] = DIM -> PtAt(x[2], [a \in Axes |-> Bit(x[4], a) * ROOT])
    [] OTHER -> PtAt(x[2], EdgePoint(x[4], IF x[5] = 0 THEN q[2 + EAxis(x[3])] ELSE ROOT - q[2 + EAxis(x[3])], ROOT))
\* a box that touches the object of this transformation from inside or outside
NTBox(c, q, x, ins) ==
  CASE x[1] = 0 -> q
    [] x[1] = 1 -> FaceImage(c, q, x[3])
    [] x[1] = DIM -> AtCorner(x[2], q[2], x[4], 1 - ins)
    [] OTHER -> AtEdge(x[2], q[2], x[4], EdgeU(<<0, 0, x[5]>>, q[2 + EAxis(x[3])], H(q)), 1 - ins)

XOk(c, call) ==
  LET nm == call[1]
      q == call[2]
      n == call[3]
      o == call[4]
      r == call[5]
  IN
  CASE nm = "xface" ->
         LET t == q[1][1] IN
         IF IsBnd(c, t, n[1]) THEN r = <<-1>> /\ o = <<>>
         ELSE r = <<FNb(c, t, n[1])[1]>> /\ o = <<FaceImage(c, q[1], n[1]), FaceImage(c, q[2], n[1])>>
    [] nm = "xedge" ->
         LET t == q[1][1]
             e == n[1]
             u == q[1][2 + EAxis(e)]
             D == EdgeDiag(c, t, e)
             one(i) == LET z == 7 * (i - 1) IN <<r[z + 1], r[z + 2], r[z + 3]>>
             ax(y) == EAxis(y) - 1
             oth(y) == EOther[EAxis(y)]
         IN /\ Len(r) = 7 * Cardinality(D) /\ Len(o) = 2 * Cardinality(D)
            /\ {one(i) : i \in 1..Cardinality(D)} = D
            /\ \A i \in 1..Cardinality(D) :
                 LET x == one(i) z == 7 * (i - 1) IN
                 /\ r[z + 4] = x[2] % 4
                 /\ <<r[z + 5], r[z + 6], r[z + 7]>> = <<ax(x[2]), oth(x[2])[1] - 1, oth(x[2])[2] - 1>>
                 /\ o[2 * i - 1] = AtEdge(x[1], q[1][2], x[2], EdgeU(x, u, H(q[1])), n[2])
                 /\ o[2 * i] = PtAt(x[1], EdgePoint(x[2], EdgeU(x, q[2][2 + EAxis(e)], 0), ROOT))
    [] nm = "xcorner" ->
         LET t == q[1][1]
             D == CornerDiag(c, t, n[1])
             one(i) == <<r[2 * i - 1], r[2 * i]>>
         IN /\ Len(r) = 2 * Cardinality(D) /\ Len(o) = Len(r)
            /\ {one(i) : i \in 1..Cardinality(D)} = D
            /\ \A i \in 1..Cardinality(D) :
                 /\ o[2 * i - 1] = AtCorner(one(i)[1], q[1][2], one(i)[2], n[2])
                 /\ o[2 * i] = PtAt(one(i)[1], [a \in Axes |-> Bit(one(i)[2], a) * ROOT])
    [] nm = "nbtr" ->
         LET t == q[1][1]
             D == NTs(c, t, n[1], n[2])
             m == Len(r) \div 4
             one(i) == <<r[4 * i - 3], r[4 * i - 2], r[4 * i - 1], r[4 * i]>>
             img(i, x) == /\ <<x[1], x[2], x[3], x[4]>> = one(i)
                          /\ o[6 * i - 5] = NTPoint(c, q[1], x)
                          /\ (x[1] # n[1] /\ x[1] > 1) \/
                             (o[6 * i - 3] = NTBox(c, q[2], x, 1) /\ o[6 * i - 1] = NTBox(c, q[3], x, 0))
         IN /\ m = Cardinality(D) /\ Len(o) = 6 * m
            /\ one(1) = <<0, t, 0, 0>>
            /\ \A i \in 1..m : /\ \E x \in D : img(i, x)
                               /\ o[6 * i - 4] = q[1] /\ o[6 * i - 2] = q[2] /\ o[6 * i] = q[3]
            /\ \A x \in D : \E i \in 1..m : img(i, x)
    [] nm = "canon" ->
         LET O == {PtAt(x[1], x[2]) : x \in PointOrbit(c, q[1][1], CoOf(q[1]), ROOT)}
             low == CHOOSE t \in {x[1] : x \in O} : \A y \in O : t <= y[1]
             L == {x \in O : x[1] = low}
         IN o = <<CHOOSE x \in L : \A y \in L : PosCmp(x, y) <= 0>>
    [] nm = "numbers" ->
         LET f == n[1]  nf == n[2]  m == FaceMapT[f][nf][n[3]]  k == FCn[f][n[4] + 1]
             over(cn) == FCn[nf][m[(CHOOSE i \in 1..NFC : FCn[f][i] = cn)] + 1]
             h == H(q[1])
             im == AcrossFace(f, nf, n[3], h, SubSeq(q[1], 3, 2 + DIM))
         IN /\ r[1] = m[n[4] + 1] /\ r[2] = FCn[nf][m[n[4] + 1] + 1]
            /\ o = <<MkQ(0, q[1][2], LAMBDA a : im[a])>>
            /\ DIM = 3 =>
                 LET e == r[5]
                     fe == n[5]  g == n[6]  ne == n[7]  eo == n[8]  ec == n[9]
                     FEs(x) == SelectSeq([y \in 1..NE |-> y - 1], LAMBDA y : y \in FEd[x])
                     e2 == EdgeOfCorners(over(ECn[e][1]), over(ECn[e][2]))
                 IN /\ r[3] = r[2] /\ e \in FEd[f] /\ r[6] = e2
                    /\ e = FEs(f)[fe + 1] /\ r[4] \in 0..3 /\ e2 = FEs(nf)[r[4] + 1]
                    /\ r[7] = (ec + eo) % 2 /\ r[8] = ECn[ne][((ec + eo) % 2) + 1]
    [] nm = "fnextra" ->
         LET b == NbBox(q[1], FDirs(n[1])) IN
         IF OutsideAxes(b) = {} THEN o = <<b>> /\ r[1] \in {Opp(n[1]), -7}
         ELSE IF IsBnd(c, q[1][1], n[1]) THEN o = <<[q[1] EXCEPT ![1] = -1]>> /\ r[1] \in {-1, -7}
         ELSE o = <<FaceImage(c, b, n[1])>> /\ r[1] \in {c.ttf[q[1][1] + 1][n[1] + 1], -7}
    [] nm \in {"enextra", "cnextra"} ->
         LET X == IF nm = "enextra" THEN ENExtra(c, q[1], n[1]) ELSE CNExtra(c, q[1], n[1]) IN
         /\ n[2] = 1 /\ Len(o) = Cardinality(X)
         /\ IF r[1] = 0 THEN Range(o) = {x[1] : x \in X}
            ELSE {<<o[i], r[i + 1]>> : i \in 1..Len(o)} = X
    [] OTHER -> FALSE

DoXform(e) ==
  /\ Step /\ UNCHANGED <<cs, fs, dead, aux>>
  /\ \E c \in {cs[e.cs]} : \A i \in 1..Len(e.calls) : Clause(e, "C21", e.calls[i][1], XOk(c, e.calls[i]))
  /\ Clause(e, "C21", "connectivity-kept", e.kept = 1)

\* creation, with the clauses on topology
DoConnT(e) ==
  /\ DoConn(e)
  /\ FaceInvolution([nt |-> e.nt, ttt |-> e.ttt, ttf |-> e.ttf]) => \E c \in {ConnOf(e)} : ConnClauses(e, c)

(***************************************************************************)
(* C32: a mesh of tetrahedra becomes the forest of hexahedra that comes of *)
(* cutting every tetrahedron around its four corners.                      *)
(***************************************************************************)
Det3(u, v, w) ==
    u[1] * (v[2] * w[3] - v[3] * w[2]) - u[2] * (v[1] * w[3] - v[3] * w[1]) + u[3] * (v[1] * w[2] - v[2] * w[1])
Minus(p, q) == [i \in 1..3 |-> p[i] - q[i]]
TetDet(X, t) == Det3(Minus(X[t[2] + 1], X[t[1] + 1]), Minus(X[t[3] + 1], X[t[1] + 1]), Minus(X[t[4] + 1], X[t[1] + 1]))
Int8(v) == ((v + 2000 * 256 + 128) % 256) - 128
\* the mean place of some corners of the tetrahedron t
MeanAt(X, t, S) == [i \in 1..3 |-> FoldLeft(LAMBDA s, j : s + (IF j \in S THEN X[t[j] + 1][i] ELSE 0), 0, <<1, 2, 3, 4>>) \div Cardinality(S)]
\* tree number tr (from 0) of the connectivity e: corner of the connectivity -> set of corners of the tetrahedron
HexSets(e, tr) ==
  LET t == e.ft[(tr \div 4) + 1]
      P == TLCEval([S \in SUBSET (1..4) \ {{}} |-> MeanAt(e.wn, t, S)])
      Sets(k) == {S \in DOMAIN P : P[S] = e.vx[e.ttv[tr + 1][k + 1] + 1]}
  IN TLCEval([k \in Cids |-> Sets(k)])
HexOk(e, tr, M) ==
  LET t == e.ft[(tr \div 4) + 1]
      S(k) == CHOOSE z \in M[k] : TRUE
      J == {j \in 1..4 : \A k \in Cids : j \in S(k)}
      V(k) == e.vx[e.ttv[tr + 1][k + 1] + 1]
      sd(k) == IF (Bit(k, 1) + Bit(k, 2) + Bit(k, 3)) % 2 = 0 THEN 1 ELSE 0 - 1
      flip(k, a) == IF Bit(k, a) = 1 THEN k - Pow2[a - 1] ELSE k + Pow2[a - 1]
      Sg(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
  IN /\ \A k \in Cids : Cardinality(M[k]) = 1
     /\ Cardinality({S(k) : k \in Cids}) = 8 /\ Cardinality(J) = 1
     \* along an edge one corner joins in
     /\ \A k \in Cids : \A a \in Axes : Cardinality((S(k) \ S(flip(k, a))) \cup (S(flip(k, a)) \ S(k))) = 1
     \* and the sense of the tetrahedron is kept
     /\ LET k == CHOOSE k \in Cids : S(k) = J
        IN Sg(Det3(Minus(V(flip(k, 1)), V(k)), Minus(V(flip(k, 2)), V(k)), Minus(V(flip(k, 3)), V(k)))) * sd(k) = Sg(TetDet(e.wn, t))
TetTrees(e) ==
  LET n == Len(e.ft)
      M == TLCEval([tr \in 0..(4 * n - 1) |-> HexSets(e, tr)])
      set(tr, k) == CHOOSE z \in M[tr][k] : TRUE
      \* one vertex for each set of nodes
      names == {<<{e.ft[(tr \div 4) + 1][j] : j \in set(tr, k)}, e.ttv[tr + 1][k + 1]>> : tr \in 0..(4 * n - 1), k \in Cids}
  IN /\ e.nt = 4 * n /\ e.vx # <<>> /\ Len(e.ttv) = e.nt
     /\ \A tr \in 0..(e.nt - 1) : \A k \in Cids : e.ttv[tr + 1][k + 1] \in 0..(Len(e.vx) - 1)
     /\ \A tr \in 0..(e.nt - 1) : HexOk(e, tr, M[tr])
     /\ \A i \in 0..(n - 1) : UNION {{j \in 1..4 : \A k \in Cids : j \in set(4 * i + r, k)} : r \in 0..3} = 1..4
     /\ Cardinality({x[1] : x \in names}) = Cardinality(names)
     /\ Cardinality({x[2] : x \in names}) = Cardinality(names)

DoTets(e) ==
  /\ Step /\ UNCHANGED <<fs, aux>>
  /\ Clause(e, "C32", "error-reported", e.null = B(e.mode # 0))
  /\ IF e.mode = 0 /\ e.null = 0 THEN
       /\ Clause(e, "C32", "mesh-read", e.rn = e.wn /\ e.rt = e.wt /\ e.ra = e.wa /\ e.rt2 = e.wt)
       /\ Clause(e, "C32", "righthanded",
            IF e.rh = 0 THEN e.ft = e.rt
            ELSE /\ Len(e.ft) = Len(e.wt)
                 /\ \A i \in 1..Len(e.wt) : IF TetDet(e.wn, e.wt[i]) > 0 THEN e.ft[i] = e.wt[i]
                                           ELSE Range(e.ft[i]) = Range(e.wt[i]) /\ Len(e.ft[i]) = 4 /\ TetDet(e.wn, e.ft[i]) > 0
                 /\ e.flips = Cardinality({i \in 1..Len(e.wt) : TetDet(e.wn, e.wt[i]) < 0}))
       /\ Clause(e, "C32", "hexahedra", TetTrees(e))
       /\ Clause(e, "C32", "attributes",
            IF e.na = 0 THEN e.tab = 0 ELSE e.tab = 1 /\ e.ta = [i \in 1..(4 * Len(e.wt)) |-> Int8(e.wa[((i - 1) \div 4) + 1])])
       /\ Clause(e, "C32", "tables-consistent", TablesOk(e) /\ e.val = 1)
       /\ \E d \in {ConnOf(e)} :
            /\ Clause(e, "C32", "gluing", TopoGroupsOk(e, d) /\ FromVertices(e, d))
            /\ cs' = (e.cs :> d) @@ cs
            /\ dead' = Degenerate(d)
     ELSE UNCHANGED <<cs, dead>>

TopoKinds == {"xform", "cop", "cbad", "tets"}
TopoOp(e) == CASE e.k = "xform" -> DoXform(e) [] e.k = "cop" -> DoCop(e) [] e.k = "cbad" -> DoCbad(e) [] e.k = "tets" -> DoTets(e)
=============================================================================
