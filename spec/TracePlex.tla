------------------------------ MODULE TracePlex -----------------------------
(***************************************************************************)
(* Conforming cell complex (C31).  The points of the complex are matched   *)
(* with the geometric entities of the mesh: every cell names its facets    *)
(* with an orientation, a facet its edges, an edge its corners.  Walking   *)
(* these from all cells, and from parents to their children and back,      *)
(* must assign exactly one entity to every point and one point to every    *)
(* entity.                                                                 *)
(***************************************************************************)
EXTENDS TraceWrap

\* position of facet f in the cone of a cell
PxPos == IF DIM = 2 THEN [f \in 0..3 |-> <<3, 1, 0, 2>>[f + 1]]
         ELSE [f \in 0..5 |-> <<5, 4, 2, 3, 0, 1>>[f + 1]]
\* corners of a cell around facet f, counterclockwise seen from outside
PxLoop == IF DIM = 2 THEN [f \in 0..3 |-> <<<<2, 0>>, <<1, 3>>, <<0, 1>>, <<3, 2>>>>[f + 1]]
          ELSE [f \in 0..5 |-> LET w == <<<<1,3,4,2>>, <<1,2,4,3>>, <<1,2,4,3>>, <<2,1,3,4>>, <<1,3,4,2>>, <<1,2,4,3>>>>[f + 1]
                               IN [i \in 1..4 |-> FCn[f][w[i]]]]
\* corners in the facet's own order, given the orientation in the cone
PxOrients == IF DIM = 2 THEN {-2, 0} ELSE -4..3
PxTurn(lp, o) ==
  IF DIM = 2 THEN IF o = 0 THEN lp ELSE <<lp[2], lp[1]>>
  ELSE [j \in 1..4 |-> lp[(IF o >= 0 THEN (j - 1 - o + 8) % 4 ELSE (1 - o - j + 8) % 4) + 1]]
\* child numbers in facet order: pieces at the corners, inner edges towards
\* the facet edges, midpoint
PxFacetIds(cu) == IF DIM = 2 THEN <<9, 10>>
                  ELSE IF cu > 0 THEN <<15, 16, 18, 17>> ELSE <<15, 16, 17, 18>>
PxInnerIds(cu) == IF cu > 0 THEN <<89, 88, 90, 87>> ELSE <<87, 88, 89, 90>>
PxEdgeIds == <<63, 64>>
PxMid == IF DIM = 2 THEN 25 ELSE 137
PxEdgeMid == 125

\* entity numbers: <<dimension, chosen member>>
PxFaceKey(c, q, f) == <<DIM - 1, CHOOSE v \in FaceInc(c, q, f) : TRUE>>
PxEdgeKey(c, q, e) == <<1, CHOOSE v \in EdgeInc(c, q, e) : TRUE>>
PxVertKey(c, q, k) == <<0, CHOOSE v \in PointKey(c, q, k) : TRUE>>

\* tables over all quadrants involved
PxGeo(c, L, I) ==
  LET S == TLCEval(SetOf(L))
      hf == TLCEval([i \in 1..Len(L) |-> FHangSet(c, S, L[i])])
      he == TLCEval([i \in 1..Len(L) |-> IF DIM = 3 THEN EHangSet(c, S, L[i]) ELSE {}])
      par == TLCEval({Parent(L[i]) : i \in {j \in 1..Len(L) : hf[j] # {} \/ he[j] # {}}})
      fpar == TLCEval(UNION {{PxFaceKey(c, Parent(L[i]), f) : f \in hf[i]} : i \in 1..Len(L)})
      epar == TLCEval(UNION {{PxEdgeKey(c, Parent(L[i]), e) : e \in he[i]} : i \in 1..Len(L)})
      big == TLCEval({v[2][1] : v \in fpar \cup epar})
      pcells == TLCEval({q \in S \cup par : (\E f \in 0..(NF - 1) : PxFaceKey(c, q, f) \in fpar)
                                   \/ (DIM = 3 /\ \E e \in 0..(NE - 1) : PxEdgeKey(c, q, e) \in epar)})
      QS == TLCEval(S \cup par \cup UNION {{Child(q, k) : k \in Cids} : q \in pcells})
      fk == TLCEval([q \in QS |-> TLCEval([f \in 0..(NF - 1) |-> PxFaceKey(c, q, f)])])
      ek == IF DIM = 2 THEN <<>> ELSE TLCEval([q \in QS |-> TLCEval([x \in 0..(NE - 1) |-> PxEdgeKey(c, q, x)])])
      vset == TLCEval([q \in QS |-> TLCEval([k \in Cids |-> PointKey(c, q, k)])])
      vk == TLCEval([q \in QS |-> TLCEval([k \in Cids |-> <<0, CHOOSE v \in vset[q][k] : TRUE>>])])
      img == TLCEval(LET pr == {<<vk[q][k], vset[q][k]>> : q \in QS, k \in Cids}
             IN [x \in {p[1] : p \in pr} |-> LET X == (CHOOSE p \in pr : p[1] = x)[2]
                      P == {NodeAt(y[1], y[2]) : y \in X}
                      t0 == MinOf({p[1] : p \in P}) IN {p \in P : p[1] = t0}])
      \* entities of leaf i with hanging ones replaced by the parent's
      anch == TLCEval([i \in 1..Len(L) |-> TLCEval(
               {fk[Resolve(L[i], hf[i], he[i], 1, f)][f] : f \in 0..(NF - 1)}
               \cup (IF DIM = 2 THEN {} ELSE {ek[Resolve(L[i], hf[i], he[i], 2, x)][x] : x \in 0..(NE - 1)})
               \cup {vk[Resolve(L[i], hf[i], he[i], 3, k)][k] : k \in Cids})])
      \* children of the hanging entities
      fch == TLCEval(LET pr == UNION {{<<fk[q][f], q, f>> : f \in {x \in 0..(NF - 1) : fk[q][x] \in fpar}} : q \in pcells}
             IN [x \in fpar |-> LET p == CHOOSE y \in pr : y[1] = x
                                    lp == PxLoop[p[3]]
                                    ch(j) == Child(p[2], lp[j])
                     IN {fk[ch(j)][p[3]] : j \in 1..NFC}
                        \cup (IF DIM = 2 THEN {vk[ch(1)][lp[2]]}
                              ELSE {ek[ch(j)][EdgeOfCorners(lp[(j % 4) + 1], lp[((j + 1) % 4) + 1])] : j \in 1..4}
                                   \cup {vk[ch(1)][lp[3]]})])
      ech == TLCEval(LET pr == UNION {{<<ek[q][x], q, x>> : x \in {y \in 0..(NE - 1) : ek[q][y] \in epar}} : q \in pcells}
             IN [x \in epar |-> LET p == CHOOSE y \in pr : y[1] = x
                                    z == ECn[p[3]]
                     IN {ek[Child(p[2], z[1])][p[3]], ek[Child(p[2], z[2])][p[3]], vk[Child(p[2], z[1])][z[2]]}])
  IN [hf |-> hf, he |-> he, fpar |-> fpar, epar |-> epar, fk |-> fk, ek |-> ek, vk |-> vk, img |-> img,
      anch |-> anch, ch |-> TLCEval([x \in fpar \cup epar |-> IF x \in fpar THEN fch[x] ELSE ech[x]])]

(***************************************************************************)
(* The arrays of one process.                                              *)
(***************************************************************************)
PxStart(R, d) == SumSeq([i \in 1..(DIM - d) |-> R.ppd[DIM - i + 2]])
PxN(R) == SumSeq(R.ppd)
PxDim(R, p) == CHOOSE d \in 0..DIM : PxStart(R, d) <= p /\ p < PxStart(R, d) + R.ppd[d + 1]
PxOff(R, p) == LET d == PxDim(R, p)
                   before == SumSeq([i \in 1..(DIM - d) |-> 2 * (DIM - i + 1) * R.ppd[DIM - i + 2]])
               IN before + 2 * d * (p - PxStart(R, d))
PxK(m, q, n) == IF q \in DOMAIN m THEN m[q][n] ELSE <<-1, q, n>>

PxShape(R) ==
  /\ Len(R.ppd) = DIM + 1 /\ \A d \in 0..DIM : R.ppd[d + 1] >= 0
  /\ Len(R.csz) = PxN(R)
  /\ R.csz = Flat([i \in 1..(DIM + 1) |-> [j \in 1..R.ppd[DIM - i + 2] |-> 2 * (DIM - i + 1)]])
  /\ Len(R.cn) = SumSeq(R.csz) /\ Len(R.or) = Len(R.cn)
  /\ Len(R.co) = R.ppd[1]
  /\ Len(R.ch) = Len(R.pa) /\ Len(R.ci) = Len(R.ch)
  /\ Len(R.rm) = 2 * Len(R.lv)
  /\ \A i \in 1..Len(R.ch) : R.ch[i] \in 0..(PxN(R) - 1) /\ R.pa[i] \in 0..(PxN(R) - 1)

\* entries of cones point to the dimension below with known orientations
PxCones(R) ==
  \A d \in 1..DIM :
    LET o == SumSeq([i \in 1..(DIM - d) |-> 2 * (DIM - i + 1) * R.ppd[DIM - i + 2]]) IN
    \A i \in (o + 1)..(o + 2 * d * R.ppd[d + 1]) :
      /\ R.cn[i] >= PxStart(R, d - 1) /\ R.cn[i] < PxStart(R, d - 1) + R.ppd[d]
      /\ R.or[i] \in (IF d = 1 THEN {0} ELSE IF d = 2 THEN {-2, 0} ELSE -4..3)

\* every parent has a full set of children
PxTree(R, cu) ==
  /\ NoDup(R.ch)
  /\ \A i \in 1..Len(R.ch) : PxDim(R, R.ch[i]) =
       IF R.ci[i] \in SetOf(PxFacetIds(cu)) THEN DIM - 1
       ELSE IF R.ci[i] \in {PxMid, PxEdgeMid} THEN 0 ELSE 1
  /\ \A p \in SetOf(R.pa) :
       LET ids == [i \in 1..Len(R.pa) |-> IF R.pa[i] = p THEN R.ci[i] ELSE -1]
           mine == SelectSeq(ids, LAMBDA x : x # -1)
           d == PxDim(R, p)
       IN /\ NoDup(mine)
          /\ d \in 1..(DIM - 1)
          /\ SetOf(mine) = IF d = DIM - 1
                           THEN SetOf(PxFacetIds(cu)) \cup {PxMid} \cup (IF DIM = 3 THEN SetOf(PxInnerIds(cu)) ELSE {})
                           ELSE SetOf(PxEdgeIds) \cup {PxEdgeMid}

PxCells(o, R, r, ov) ==
  LET G == IF ov = 0 THEN <<>> ELSE R.g
      k == IF ov = 0 THEN 0 ELSE R.po[r]
  IN SubSeq(G, 1, k) \o [i \in 1..(o.cut[r + 1] - o.cut[r]) |-> o.L[o.cut[r] + i]] \o SubSeq(G, k + 1, Len(G))

\* all <<point, entity>> claims of process r
PxClaims(R, cells, M, pos, cu) ==
  LET K == Len(cells)
      kid == TLCEval([x \in {<<R.pa[i], R.ci[i]>> : i \in 1..Len(R.ch)} |->
                 R.ch[CHOOSE i \in 1..Len(R.ch) : R.pa[i] = x[1] /\ R.ci[i] = x[2]]])
      chs == SetOf(R.ch)
      pas == SetOf(R.pa)
      par == TLCEval([x \in chs |-> R.pa[CHOOSE i \in 1..Len(R.ch) : R.ch[i] = x]])
      Facets == 0..(NF - 1)
      X(i, f) == R.cn[NF * (i - 1) + PxPos[f] + 1]
      g(i, f) == PxTurn(PxLoop[f], R.or[NF * (i - 1) + PxPos[f] + 1])
      own == TLCEval(UNION {{<<X(i, f), cells[i], f, g(i, f)>> : f \in Facets} : i \in 1..K})
      \* up to the parent, by cells with a hanging facet
      hangs == TLCEval(UNION {{<<i, f>> : f \in M.hf[pos[cells[i]]]} : i \in 1..K})
      attached == \A h \in hangs : X(h[1], h[2]) \in chs
      up == IF ~attached THEN {} ELSE
            TLCEval({<<par[X(h[1], h[2])], Parent(cells[h[1]]), h[2], g(h[1], h[2])>> : h \in hangs})
      above == TLCEval({y \in own \cup up : y[1] \in pas})
      down == TLCEval(UNION {{<<kid[<<y[1], PxFacetIds(cu)[j]>>], Child(y[2], y[4][j]), y[3], y[4]>> : j \in 1..NFC} : y \in above})
      ffr == TLCEval(own \cup up \cup down)
      fcl == TLCEval({<<y[1], PxK(M.fk, y[2], y[3])>> : y \in ffr})
      mids == TLCEval({<<kid[<<y[1], PxMid>>], PxK(M.vk, Child(y[2], y[4][1]), y[4][IF DIM = 2 THEN 2 ELSE 3])>> : y \in above})
      \* <<edge point, quadrant, corner, corner>> (DIM = 2: the facets)
      efr0 == IF DIM = 2 THEN {<<y[1], y[2], y[4][1], y[4][2]>> : y \in ffr}
              ELSE TLCEval(UNION {LET b == PxOff(R, y[1]) IN
                     {LET a == y[4][j]  z == y[4][(j % 4) + 1]
                      IN IF R.or[b + j] = 0 THEN <<R.cn[b + j], y[2], a, z>> ELSE <<R.cn[b + j], y[2], z, a>> : j \in 1..4}
                     : y \in ffr})
      ehang == IF DIM = 2 THEN {} ELSE TLCEval({y \in efr0 : y[2] \in DOMAIN pos
                     /\ EdgeOfCorners(y[3], y[4]) \in M.he[pos[y[2]]]})
      eattached == \A y \in ehang : y[1] \in chs /\ PxDim(R, par[y[1]]) = 1
      eup == IF ~eattached THEN {} ELSE TLCEval({<<par[y[1]], Parent(y[2]), y[3], y[4]>> : y \in ehang})
      eabove == IF DIM = 2 THEN {} ELSE TLCEval({y \in efr0 \cup eup : y[1] \in pas})
      edown == TLCEval(UNION {{<<kid[<<y[1], 63>>], Child(y[2], y[3]), y[3], y[4]>>,
                               <<kid[<<y[1], 64>>], Child(y[2], y[4]), y[3], y[4]>>} : y \in eabove})
      efr == TLCEval(efr0 \cup eup \cup edown)
      ecl == IF DIM = 2 THEN {} ELSE
             TLCEval({<<y[1], PxK(M.ek, y[2], EdgeOfCorners(y[3], y[4]))>> : y \in efr}
                     \cup {<<kid[<<y[1], PxEdgeMid>>], PxK(M.vk, Child(y[2], y[3]), y[4])>> : y \in eabove})
      \* edges inside a hanging facet have no prescribed direction
      inner == IF DIM = 2 THEN {} ELSE
               UNION {{<<kid[<<y[1], PxInnerIds(cu)[j]>>], Child(y[2], y[4][j]), y[4][(j % 4) + 1], y[4][((j + 1) % 4) + 1]>> : j \in 1..4} : y \in above}
      icl == TLCEval({<<y[1], PxK(M.ek, y[2], EdgeOfCorners(y[3], y[4]))>> : y \in inner})
      vcl == TLCEval(UNION {LET b == PxOff(R, y[1]) IN
                 {<<R.cn[b + 1], PxK(M.vk, y[2], y[3])>>, <<R.cn[b + 2], PxK(M.vk, y[2], y[4])>>} : y \in efr})
  IN [att |-> attached /\ eattached, cl |-> TLCEval(fcl \cup mids \cup ecl \cup icl \cup vcl),
      kids |-> {<<R.pa[i], R.ch[i]>> : i \in 1..Len(R.ch)}]

\* multilinear image of a point with coordinates in multiples of 1/16
PxWeight(p, k) ==
  LET w(a) == LET u == p[1 + a] \div 67108864 IN IF Bit(k, a) = 1 THEN u ELSE 16 - u
  IN IF DIM = 2 THEN w(1) * w(2) ELSE w(1) * w(2) * w(3)
PxAt(tv, p, d) ==
  LET s == SumSeq([k \in 1..NC |-> PxWeight(p, k - 1) * tv[p[1] + 1][k][d]])
  IN s \div (IF DIM = 2 THEN 256 ELSE 4096)
PxNear(a, b) == a - b <= 2 /\ b - a <= 2

DoPlex(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ IF ~Is({"C31"}) THEN TRUE ELSE
     \E o \in {fs[e.s]} : \E c \in {cs[o.cs]} :
     IF ~Directed(c, o.L) THEN TRUE ELSE
     \E shape \in {\A r \in Procs(e) : PxShape(e.R[r])} :
       /\ Clause(e, "C31", "shape", shape)
       /\ IF ~shape THEN TRUE ELSE
          \E cells \in {[r \in Procs(e) |-> PxCells(o, e.R[r], r, e.ov)]} :
          \E ok \in {\A r \in Procs(e) : PxCones(e.R[r]) /\ e.R[r].ppd[DIM + 1] = Len(cells[r])
                        /\ e.R[r].flq = IF e.ov = 0 THEN 0 ELSE e.R[r].po[r]} :
          \E tree \in {\A r \in Procs(e) : PxTree(e.R[r], e.cu)} :
            /\ Clause(e, "C31", "strata-and-cells", ok)
            /\ Clause(e, "C31", "full-sets-of-children", tree)
            /\ IF ~(ok /\ tree) THEN TRUE ELSE
               \E M \in {PxGeo(c, o.L, o.I)} :
               \E pos \in {PosMap(o.L)} :
               \E D \in {[r \in Procs(e) |-> PxClaims(e.R[r], cells[r], M, pos, e.cu)]} :
               \E ent \in {[r \in Procs(e) |->
                     LET a == UNION {M.anch[pos[cells[r][i]]] : i \in 1..Len(cells[r])}
                     IN a \cup UNION {M.ch[x] : x \in a \cap DOMAIN M.ch}]} :
               \E fun \in {\A r \in Procs(e) :
                     /\ D[r].att
                     /\ Cardinality(D[r].cl) = Cardinality({x[1] : x \in D[r].cl})
                     /\ Cardinality(D[r].cl) = Cardinality({x[2] : x \in D[r].cl})} :
                 /\ Clause(e, "C31", "hanging-entities-have-parents", \A r \in Procs(e) : D[r].att)
                 /\ Clause(e, "C31", "one-entity-per-point", \A r \in Procs(e) :
                      Cardinality(D[r].cl) = Cardinality({x[1] : x \in D[r].cl}))
                 /\ Clause(e, "C31", "one-point-per-entity", \A r \in Procs(e) :
                      Cardinality(D[r].cl) = Cardinality({x[2] : x \in D[r].cl}))
                 /\ Clause(e, "C31", "all-entities", \A r \in Procs(e) :
                      /\ {x[2] : x \in D[r].cl} = ent[r]
                      /\ {x[1] : x \in D[r].cl} = Len(cells[r])..(PxN(e.R[r]) - 1)
                      /\ \A x \in D[r].cl : PxDim(e.R[r], x[1]) = x[2][1])
                 /\ IF ~fun THEN TRUE ELSE
                    \E key \in {[r \in Procs(e) |-> [p \in {x[1] : x \in D[r].cl} |-> (CHOOSE x \in D[r].cl : x[1] = p)[2]]]} :
                    \E lv \in {[r \in Procs(e) |-> SetOf(e.R[r].lv)]} :
                    \E nk \in {[r \in Procs(e) |-> [p \in 0..(PxN(e.R[r]) - 1) |->
                           IF p < Len(cells[r]) THEN <<DIM, <<cells[r][p + 1], 0>>>>
                           ELSE IF p \in DOMAIN key[r] THEN key[r][p] ELSE <<-1, p>>]]} :
                    \E home \in {[r \in Procs(e) |-> {nk[r][p] : p \in (0..(PxN(e.R[r]) - 1)) \ lv[r]}]} :
                      /\ Clause(e, "C31", "parents-are-the-hanging-entities", \A r \in Procs(e) :
                           \A x \in DOMAIN key[r] :
                             LET kids == {y[2] : y \in {z \in D[r].kids : z[1] = x}} IN
                             {key[r][y] : y \in kids} = IF key[r][x] \in DOMAIN M.ch THEN M.ch[key[r][x]] ELSE {})
                      /\ Clause(e, "C31", "leaves-point-to-the-same-entity", \A r \in Procs(e) :
                           /\ NoDup(e.R[r].lv)
                           /\ \A i \in 1..Len(e.R[r].lv) :
                                LET p == e.R[r].rm[2 * i - 1] + 1
                                    x == e.R[r].rm[2 * i]
                                IN /\ p \in Procs(e) /\ p # r
                                   /\ x \in 0..(PxN(e.R[p]) - 1)
                                   /\ nk[p][x] = nk[r][e.R[r].lv[i]]
                                   /\ x \notin lv[p])
                      /\ Clause(e, "C31", "one-home-per-entity", \A r \in Procs(e) : \A s \in Procs(e) :
                           s <= r \/ home[r] \cap home[s] = {})
                      /\ Clause(e, "C31", "cell-home", \A r \in Procs(e) : \A p \in 0..(Len(cells[r]) - 1) :
                           (p \in lv[r]) = (pos[cells[r][p + 1]] \notin LocPos(o, r)))
                      /\ Clause(e, "C31", "vertex-coordinates",
                           \/ e.tv = <<>> \/ \E i \in 1..Len(o.L) : o.L[i][2] > 4
                           \/ \A r \in Procs(e) : \A i \in 1..Len(e.R[r].co) :
                                LET x == nk[r][PxStart(e.R[r], 0) + i - 1] IN
                                x \in DOMAIN M.img => \E p \in M.img[x] :
                                   \A d \in 1..3 : PxNear(e.R[r].co[i][d], PxAt(e.tv, p, d)))
                      /\ Clause(e, "C31", "one-position-per-vertex", \A r \in Procs(e) : \A s \in Procs(e) :
                           s <= r \/
                           LET at(p) == {<<nk[p][PxStart(e.R[p], 0) + i - 1], e.R[p].co[i]>> : i \in 1..Len(e.R[p].co)}
                               both == {x[1] : x \in at(r)} \cap {x[1] : x \in at(s)}
                           IN {x \in at(r) : x[1] \in both} = {x \in at(s) : x[1] \in both})

PlexOp(e) == DoPlex(e)
PlexKinds == {"plex"}
=============================================================================
