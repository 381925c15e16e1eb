------------------------------- MODULE Trace6N ------------------------------
(***************************************************************************)
(* Ghost layers and node numberings of forests of columns (C29).           *)
(* A ghost layer of columns carries all layers of the ghost columns.  A    *)
(* node of a balanced column forest is a node of the two-dimensional       *)
(* numbering of the columns and a position in the stack of layers at this  *)
(* node, which is the coarsest of the stacks of all columns that refer to  *)
(* the node.                                                               *)
(***************************************************************************)
EXTENDS Trace6

Cum(s) == PrefixSums([i \in 1..Len(s) |-> Len(s[i])])

\* layers of the columns at the given positions, as <<tree, z, level, number>>
LayersAt(o, w, P) ==
  LET A == Cum(w.S)
      own(i) == OwnerOf(o.cut, i - 1)
  IN Flat([i \in 1..Len(P) |->
       [j \in 1..Len(w.S[P[i]]) |->
          <<o.L[P[i]][1], w.S[P[i]][j][1], w.S[P[i]][j][2],
            A[P[i]] + j - 1 - A[o.cut[own(P[i]) + 1] + 1]>>]])
GhostPos(o, R) == [i \in 1..Len(R.g) |->
                     LET p == CHOOSE p \in 1..o.P : R.po[p] < i /\ i <= R.po[p + 1]
                     IN o.cut[p] + R.gn[i] + 1]
\* indices of layers that belong to a list of column indices (from 0)
LayIdx(off, cols) == Flat([i \in 1..Len(cols) |-> [j \in 1..(off[cols[i] + 2] - off[cols[i] + 1]) |-> off[cols[i] + 1] + j - 1]])
Sec(s, off, p) == SubSeq(s, off[p] + 1, off[p + 1])

GhostLayersOk(e, o, w, r) ==
  \E R \in {e.R[r]} : \E gp \in {GhostPos(o, R)} :
  \E mp \in {[i \in 1..Len(R.m) |-> o.cut[r] + R.mn[i] + 1]} :
  \E co \in {PrefixSums([i \in 1..Len(gp) |-> Len(w.S[gp[i]])])} :
  \E mo \in {PrefixSums([i \in 1..Len(mp) |-> Len(w.S[mp[i]])])} :
     /\ Clause(e, "C29", "ghost-column-offsets", R.clo = co)
     /\ Clause(e, "C29", "ghost-layers", R.lg = LayersAt(o, w, gp))
     /\ Clause(e, "C29", "ghost-layer-offsets",
          /\ R.lto = [i \in 1..Len(R.to) |-> co[R.to[i] + 1]]
          /\ R.lpo = [i \in 1..Len(R.po) |-> co[R.po[i] + 1]] /\ R.lbt = 1)
     /\ Clause(e, "C29", "mirror-layers", R.lm = LayersAt(o, w, mp))
     /\ Clause(e, "C29", "mirror-tree-offsets", R.lmto = [i \in 1..Len(R.mto) |-> mo[R.mto[i] + 1]])
     /\ Clause(e, "C29", "mirror-layers-by-process",
          /\ Len(R.lmpo) = o.P + 1 /\ R.lmpo[o.P + 1] = Len(R.lmpm)
          /\ \A p \in 1..o.P : Sec(R.lmpm, R.lmpo, p) = LayIdx(mo, Sec(R.mpm, R.mpo, p)))
     /\ Clause(e, "C29", "mirror-front",
          /\ Len(R.lfro) = o.P + 1 /\ R.lfro[o.P + 1] = Len(R.lfrm)
          /\ \A p \in 1..o.P :
               IF R.hf = 1
               THEN LET fr == Sec(R.lfrm, R.lfro, p) IN
                    IsPermOf(fr, SetOf(LayIdx(mo, Sec(R.frm, R.fro, p)))) /\ NoDup(fr)
               ELSE Sec(R.lfrm, R.lfro, p) = Sec(R.lmpm, R.lmpo, p))

DoHGhost(e) ==
  /\ Keep(e)
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} : \E c \in {cs[o.cs]} :
     \E A \in {AdjTable(c, o.L, e.kind)} :
     \E G \in {[r \in 1..o.P |-> GhostSetOf(A, LocPos(o, r))]} :
     \E okc \in {\A r \in Procs(e) : GhostMatches(o, c, G, e.R[r], r)} :
        /\ Clause(e, "C29", "ghost-columns", okc)
        /\ IF okc THEN \A r \in Procs(e) : GhostLayersOk(e, o, w, r) ELSE TRUE
        /\ aux' = [aux EXCEPT !.gh = (K6(e.g) :> [A |-> A, G |-> G]) @@ aux.gh]
DoHGexp(e) ==
  /\ Keep(e)
  /\ \E x \in {aux.gh[K6(e.g)]} : \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} : \E c \in {cs[o.cs]} :
     \E G \in {[r \in 1..o.P |-> ExpandSet(x.A, x.G[r], LocPos(o, r))]} :
     \E okc \in {\A r \in Procs(e) : GhostMatches(o, c, G, e.R[r], r)} :
        /\ Clause(e, "C29", "expanded-ghost-columns", okc)
        /\ IF okc THEN \A r \in Procs(e) : GhostLayersOk(e, o, w, r) ELSE TRUE
        /\ aux' = [aux EXCEPT !.gh = (K6(e.g) :> [x EXCEPT !.G = G]) @@ aux.gh]

(***************************************************************************)
(* Node numbering.                                                         *)
(***************************************************************************)
Ln6Shape(e, o, w, r) ==
  LET R == e.R[r]
      A == Cum(w.S)
      ne == A[o.cut[r + 1] + 1] - A[o.cut[r] + 1]
      V == (e.deg + 1) ^ 3
  IN /\ R.deg = e.deg /\ R.vn = V /\ R.ne = ne
     /\ Len(R.en) = V * ne /\ Len(R.fc) = ne
     /\ R.oc >= 0 /\ R.oc <= R.n /\ Len(R.nl) = R.n - R.oc
     /\ \A i \in 1..Len(R.en) : R.en[i] >= 0 /\ R.en[i] < R.n
     /\ R.goc = [p \in Procs(e) |-> e.R[p].oc]
     /\ R.off = PrefixSums(R.goc)[r]
     /\ Len(R.lab) = R.oc

\* position of the layer of the stack P (bottom up) that contains layer y
RECURSIVE SeqOfStack(_, _)
SeqOfStack(X, z) == IF X = {} THEN <<>>
                    ELSE LET y == CHOOSE y \in X : \A x \in X : y[1] <= x[1]
                         IN <<y>> \o SeqOfStack(X \ {y}, y[1])
InLayer(P, y) == CHOOSE b \in 1..Len(P) : LWithin(y, P[b])

\* the decoded hanging information of layer y in a column: hf its hanging
\* faces, hc(f) the half of the larger face, W the side faces and V the side
\* edges whose layers are twice as thick
Code6(q, hf, W, V, h) ==
  IF hf = {} /\ W = {} /\ V = {} THEN <<>>
  ELSE LET half(f) == (CHOOSE m \in 1..NFC : FCn[f][m] = Cid(q)) - 1
           face(f) == IF f \in hf THEN (IF f \in W THEN 2 * half(f) + h ELSE 4 + half(f))
                      ELSE IF f \in W THEN 6 + h ELSE -1
           \* edge of side face f at the bottom (b = 0) or top
           hor(f, b) == IF f \in W /\ b = 1 - h THEN 4
                        ELSE IF f \in hf THEN 2 + half(f) ELSE -1
           hc(f, k) == CHOOSE m \in 1..NFC : FCn[f][m] = k
           ver(k) == IF \E f \in CFaces[k] \cap hf : hc(f, k) - 1 # half(f) THEN 4
                     ELSE IF CFaces[k] \cap W # {} THEN 2 + h
                     ELSE IF k \in V THEN h ELSE -1
           \* edges 4 to 7 point along the first axis of the column, at the
           \* bottom or top (odd) of side face 2 or 3; 8 to 11 along the second
           E(n) == IF n < 4 THEN ver(n)
                   ELSE IF n < 8 THEN hor(2 + ((n - 4) \div 2), n % 2)
                   ELSE hor((n - 8) \div 2, n % 2)
       IN <<-1, -1>> \o [f \in 1..NF |-> face(f - 1)] \o [n \in 1..12 |-> E(n - 1)]

DoHLnodes(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} : \E c \in {cs[o.cs]} :
     \E shape \in {\A r \in Procs(e) : Ln6Shape(e, o, w, r)} :
     /\ Clause(e, "C29", "shape", shape)
     /\ IF ~shape THEN TRUE ELSE
        \E M \in {NodeMesh(c, o.L, o.I, e.deg)} :
        \E N2 \in {(e.deg + 1) * (e.deg + 1)} :
        \E A \in {Cum(w.S)} :
        \E NK \in {UNION {SetOf(M.key[i]) : i \in 1..Len(o.L)}} :
        \E Sh \in {Shape(w.S)} :
        \E prof \in {[k \in NK |-> SeqOfStack(Coarsest({SetOf(Sh[i]) : i \in {j \in 1..Len(o.L) : k \in SetOf(M.key[j])}}), 0)]} :
        \E fit \in {\A i \in 1..Len(o.L) : \A v \in 1..N2 : \A j \in 1..Len(Sh[i]) :
                      \E b \in 1..Len(prof[M.key[i][v]]) : LWithin(Sh[i][j], prof[M.key[i][v]][b])} :
        \E G \in {[r \in Procs(e) |-> GSeq(e.R[r])]} :
        \* nodes of column i, layer j: horizontal position v, vertical position z
        \E at \in {[i \in 1..Len(o.L) |-> [j \in 1..Len(Sh[i]) |-> [v \in 1..N2 |->
                      InLayer(prof[M.key[i][v]], Sh[i][j])]]]} :
        \E pairs \in {UNION {UNION {UNION {
              LET n == A[i] + j - 1 - A[o.cut[r] + 1] IN     \* element number in its process
              {<<<<M.key[i][v], (at[i][j][v] - 1) * e.deg + z>>,
                 G[r][e.R[r].en[(n * N2 + v - 1) * (e.deg + 1) + z + 1] + 1]>> : v \in 1..N2, z \in 0..e.deg}
              : j \in 1..Len(Sh[i])} : i \in LocPos(o, r)} : r \in Procs(e)}} :
        \E loc \in {[r \in Procs(e) |-> UNION {SetOf(M.key[i]) : i \in LocPos(o, r)}]} :
        \E total \in {PrefixSums(e.R[1].goc)[e.P + 1]} :
          /\ Clause(e, "C29", "one-number-per-node", Cardinality(pairs) = Cardinality({p[1] : p \in pairs}))
          /\ Clause(e, "C29", "one-node-per-number", Cardinality(pairs) = Cardinality({p[2] : p \in pairs}))
          /\ Clause(e, "C29", "numbers-contiguous", {p[2] : p \in pairs} = 0..(total - 1))
          /\ Clause(e, "C29", "columns-of-nodes-contiguous",
               \E base \in {{<<p[1][1], p[2]>> : p \in {x \in pairs : x[1][2] = 0}}} :
               \A p \in pairs : <<p[1][1], p[2] - p[1][2]>> \in base)
          /\ Clause(e, "C29", "local-nodes-are-the-referenced-ones", \A r \in Procs(e) :
               /\ SetOf(e.R[r].en) = 0..(e.R[r].n - 1)
               /\ NoDup(G[r]))
          /\ Clause(e, "C29", "owner-is-first-touching-column",
               \E self \in {{t \in 0..(c.nt - 1) : SelfGlued(c, t)}} :
               \A p \in pairs : \E f \in {FirstOf(M, p[1][1])} \cup SelfFirsts(c, o, self, p[1][1], FirstOf(M, p[1][1])) :
                 LET r == OwnerOf(o.cut, f - 1) + 1
                 IN e.R[r].off <= p[2] /\ p[2] < e.R[r].off + e.R[r].oc)
          /\ Clause(e, "C29", "hanging-code", \A r \in Procs(e) : \A i \in LocPos(o, r) : \A j \in 1..Len(Sh[i]) :
               LET y == Sh[i][j]
                   \* nodes in the middle of the side faces: degree 1 numberings have none
                   M2 == IF e.deg > 1 THEN M ELSE NodeMesh(c, o.L, o.I, 2)
                   thick(key) == LET P == Coarsest({SetOf(Sh[x]) : x \in {z \in 1..Len(o.L) : key \in SetOf(M2.key[z])}})
                                 IN y \notin P
                   d == IF e.deg > 1 THEN e.deg ELSE 2
                   pos(a, b) == b * (d + 1) + a + 1
                   mid(f) == CASE f = 0 -> pos(0, 1) [] f = 1 -> pos(d, 1) [] f = 2 -> pos(1, 0) [] f = 3 -> pos(1, d)
                   crn(k) == pos((k % 2) * d, (k \div 2) * d)
                   W == {f \in 0..3 : thick(M2.key[i][mid(f)])}
                   V == {k \in 0..3 : thick(M2.key[i][crn(k)])}
               IN e.R[r].fc[A[i] + j - A[o.cut[r] + 1]] = Code6(o.L[i], M.hf[i], W, V, (y[1] \div Hl(y[2])) % 2))
          /\ Clause(e, "C29", "column-labels",
               \E lp \in {UNION {{<<p[1][1], e.R[r].lab[p[2] - e.R[r].off + 1]>> :
                             p \in {x \in pairs : e.R[r].off <= x[2] /\ x[2] < e.R[r].off + e.R[r].oc}} : r \in Procs(e)}} :
               /\ Cardinality(lp) = Cardinality(NK)
               /\ {x[1] : x \in lp} = NK /\ {x[2] : x \in lp} = 0..(Cardinality(NK) - 1))
          /\ SharersOk(e, "C29")

(***************************************************************************)
(* Graphics of forests of columns (C34): one hexahedron per layer, in the  *)
(* order of the columns; heights relative to the unit of length.           *)
(***************************************************************************)
HvMap(tv, t, ex, ey, ez, d) ==
  LET v(i) == tv[t + 1][i][d]
  IN VkLerp(VkLerp(VkLerp(v(1), v(2), ex), VkLerp(v(3), v(4), ex), ey),
            VkLerp(VkLerp(v(5), v(6), ex), VkLerp(v(7), v(8), ex), ey), ez)
HvPointArrays(e) ==
  {<<"Points", "Position", "Float32", 3>>}
  \cup {<<"PointData", "ps" \o ToString(i - 1), "Float32", 1>> : i \in 1..e.nps}
  \cup {<<"PointData", "pv" \o ToString(i - 1), "Float32", 3>> : i \in 1..e.npv}
HvCellArrays(e) ==
  (IF e.wt = 1 THEN {<<"CellData", "treeid", "Int32", 1>>} ELSE {})
  \cup (IF e.wr = 1 THEN {<<"CellData", "mpirank", "Int32", 1>>} ELSE {})
DoHVtk(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ IF ~Is({"C34"}) THEN TRUE ELSE
     \E o \in {fs[K6(e.s)]} : \E w \in {aux.w[K6(e.s)]} :
     \E Q \in {[r \in Procs(e) |-> LocC(o, w, r - 1)]} :
     \E shape \in {\A r \in Procs(e) : LET R == e.R[r] n == Len(Q[r]) IN
          /\ R.ok = 1 /\ R.nc = n /\ R.np = 8 * n /\ Len(R.pos) = 24 * n
          /\ R.conn = [i \in 1..(8 * n) |-> i - 1]
          /\ R.off = [i \in 1..n |-> 8 * i] /\ R.typ = [i \in 1..n |-> 11]} :
       /\ Clause(e, "C34", "columns-master-lists-all-pieces",
            /\ e.mok = 1 /\ e.src = [i \in 1..e.P |-> i - 1]
            /\ e.nblk = e.P /\ e.vis = [i \in 1..e.P |-> i - 1])
       /\ Clause(e, "C34", "columns-arrays", VkArrays(e.pm, HvPointArrays(e) \cup HvCellArrays(e))
            /\ \A r \in Procs(e) : VkArrays(e.R[r].am, VkTopo \cup HvPointArrays(e) \cup HvCellArrays(e)))
       /\ Clause(e, "C34", "columns-one-cell-per-layer", shape)
       /\ IF ~shape THEN TRUE ELSE
          /\ Clause(e, "C34", "columns-positions", e.tv # <<>> =>
               \A r \in Procs(e) : \A i \in 1..Len(Q[r]) : \A x \in 0..7 :
                 LET q == Q[r][i]
                     ex == VkEta(q, x, 1, e.sc)
                     ey == VkEta(q, x, 2, e.sc)
                     ez == VkEta(<<0, q[6], q[5]>>, x \div 4, 1, e.sc)
                 IN (q[2] <= 7 /\ q[6] <= 7) =>
                      \A d \in 1..3 : VkNear(e.R[r].pos[3 * (8 * (i - 1) + x) + d], HvMap(e.tv, q[1], ex, ey, ez, d)))
          /\ Clause(e, "C34", "columns-tree-process", \A r \in Procs(e) :
               /\ e.R[r].tid = IF e.wt = 1 THEN [i \in 1..Len(Q[r]) |-> Q[r][i][1]] ELSE <<>>
               /\ e.R[r].rk = IF e.wr = 1 THEN [i \in 1..Len(Q[r]) |-> IF e.wrap > 0 THEN (r - 1) % e.wrap ELSE r - 1] ELSE <<>>)
          /\ Clause(e, "C34", "columns-point-fields", \A r \in Procs(e) :
               /\ \A i \in 1..e.nps : e.R[r].ps[i].f = e.R[r].ps[i].g
               /\ \A i \in 1..e.npv : e.R[r].pv[i].f = e.R[r].pv[i].g)

NumKinds == {"hghost", "hgexp", "hlnodes", "hvtk"}
NumOp(e) == CASE e.k = "hvtk" -> DoHVtk(e) [] e.k = "hghost" -> DoHGhost(e) [] e.k = "hgexp" -> DoHGexp(e) [] e.k = "hlnodes" -> DoHLnodes(e)
=============================================================================
