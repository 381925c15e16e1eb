------------------------------ MODULE TraceVtk ------------------------------
(***************************************************************************)
(* Graphics output (C34): the files of all processes, read back by an      *)
(* independent reader, describe one cell per leaf.                         *)
(***************************************************************************)
EXTENDS TracePlex

\* tree coordinates in units of 1/5120, for levels up to 7; sc in 1/20
VkUnit == 5120
VkEta(q, k, a, sc) ==
  (q[2 + a] \div 1048576) * 5 + ((Pow2[10 - q[2]] * (IF Bit(k, a) = 1 THEN 20 + sc ELSE 20 - sc)) \div 8)
VkLerp(x, y, e) == x + (((y - x) * e) \div VkUnit)
VkMap(gm, tv, t, ex, ey, ez, d) ==
  IF gm = 2
  THEN IF d = 1 THEN 20000 * t + ((ex * 10000) \div VkUnit)
       ELSE IF d = 2 THEN ((3 * ey - ex) * 10000) \div VkUnit
       ELSE ((5 * ez + ey) * 10000) \div VkUnit
  ELSE LET v(i) == tv[t + 1][i][d]
           lo == VkLerp(VkLerp(v(1), v(2), ex), VkLerp(v(3), v(4), ex), ey)
       IN IF DIM = 2 THEN lo
          ELSE VkLerp(lo, VkLerp(VkLerp(v(5), v(6), ex), VkLerp(v(7), v(8), ex), ey), ez)
VkNear(x, y) == x - y <= 6 /\ y - x <= 6

\* index of node <<i, j, k>> in a Lagrange cell of order m in every direction:
\* corners, edges, faces, interior
VkIdx(m, i, j, k) ==
  LET ib == i = 0 \/ i = m
      jb == j = 0 \/ j = m
      kb == k = 0 \/ k = m
      n == m - 1
      corner == IF i > 0 THEN IF j > 0 THEN 2 ELSE 1 ELSE IF j > 0 THEN 3 ELSE 0
  IN IF DIM = 2
     THEN IF ib /\ jb THEN corner
          ELSE IF jb THEN 4 + (i - 1) + (IF j > 0 THEN 2 * n ELSE 0)
          ELSE IF ib THEN 4 + (j - 1) + (IF i > 0 THEN n ELSE 3 * n)
          ELSE 4 + 4 * n + (i - 1) + n * (j - 1)
     ELSE LET top == IF k > 0 THEN 4 * n ELSE 0 IN
          IF ib /\ jb /\ kb THEN corner + (IF k > 0 THEN 4 ELSE 0)
          ELSE IF jb /\ kb THEN 8 + top + (i - 1) + (IF j > 0 THEN 2 * n ELSE 0)
          ELSE IF ib /\ kb THEN 8 + top + (j - 1) + (IF i > 0 THEN n ELSE 3 * n)
          ELSE IF ib /\ jb THEN 8 + 8 * n + (k - 1) + n * (IF i > 0 THEN IF j > 0 THEN 3 ELSE 1 ELSE IF j > 0 THEN 2 ELSE 0)
          ELSE IF ib THEN 8 + 12 * n + (j - 1) + n * (k - 1) + (IF i > 0 THEN n * n ELSE 0)
          ELSE IF jb THEN 8 + 12 * n + 2 * n * n + (i - 1) + n * (k - 1) + (IF j > 0 THEN n * n ELSE 0)
          ELSE IF kb THEN 8 + 12 * n + 4 * n * n + (i - 1) + n * (j - 1) + (IF k > 0 THEN n * n ELSE 0)
          ELSE 8 + 12 * n + 6 * n * n + (i - 1) + n * ((j - 1) + n * (k - 1))

\* number of points per cell and place of lexicographic node x in the cell
VkPer(e) == IF DIM = 2 THEN e.n1 * e.n1 ELSE e.n1 * e.n1 * e.n1
VkPlace(e) == [x \in 0..(VkPer(e) - 1) |->
  IF e.mode # 2 THEN x ELSE VkIdx(e.n1 - 1, x % e.n1, (x \div e.n1) % e.n1, x \div (e.n1 * e.n1))]

VkCellArrays(e) ==
  (IF e.wt = 1 THEN {<<"CellData", "treeid", "Int32", 1>>} ELSE {})
  \cup (IF e.wl = 1 THEN {<<"CellData", "level", "UInt8", 1>>} ELSE {})
  \cup (IF e.wr = 1 THEN {<<"CellData", "mpirank", "Int32", 1>>} ELSE {})
  \cup {<<"CellData", "cs" \o ToString(i - 1), "Float32", 1>> : i \in 1..e.ncs}
  \cup {<<"CellData", "cv" \o ToString(i - 1), "Float32", 3>> : i \in 1..e.ncv}
VkPointArrays(e) ==
  {<<"Points", "Position", "Float32", 3>>}
  \cup {<<"PointData", "ps" \o ToString(i - 1), "Float32", 1>> : i \in 1..e.nps}
  \cup {<<"PointData", "pv" \o ToString(i - 1), "Float32", 3>> : i \in 1..e.npv}
VkTopo == {<<"Cells", "connectivity", "Int32", 1>>, <<"Cells", "offsets", "Int32", 1>>, <<"Cells", "types", "UInt8", 1>>}
VkArrays(m, X) == NoDup(m) /\ SetOf(m) = X

VkShared(e) == e.mode # 2 /\ e.co = 1 /\ e.sc = 20

\* one process; Q = its leaves in order
VkShape(e, R, n) ==
  LET N == VkPer(e) IN
  /\ R.ok = 1 /\ R.nc = n
  /\ Len(R.pos) = 3 * R.np /\ Len(R.conn) = N * n /\ Len(R.off) = n /\ Len(R.typ) = n
  /\ \A i \in 1..Len(R.conn) : R.conn[i] \in 0..(R.np - 1)
VkField(e, R, n) ==
  LET len(x, k) == \A i \in 1..Len(x) : Len(x[i].f) = k IN
  /\ len(R.cs, n) /\ len(R.cv, 3 * n) /\ len(R.ps, R.np) /\ len(R.pv, 3 * R.np)

DoVtk(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ IF ~Is({"C34"}) THEN TRUE ELSE
     \E o \in {fs[e.s]} :
     \E Q \in {[r \in Procs(e) |-> SubSeq(o.L, o.cut[r] + 1, o.cut[r + 1])]} :
     \E shape \in {\A r \in Procs(e) : VkShape(e, e.R[r], Len(Q[r]))} :
     \E P \in {Len(e.R)} :
       /\ Clause(e, "C34", "master-lists-all-pieces",
            /\ e.mok = 1 /\ e.src = [i \in 1..P |-> i - 1]
            /\ e.nblk = P /\ e.vis = [i \in 1..P |-> i - 1])
       /\ Clause(e, "C34", "arrays-of-the-pieces", \A r \in Procs(e) :
            VkArrays(e.R[r].am, VkTopo \cup VkPointArrays(e) \cup VkCellArrays(e)))
       /\ Clause(e, "C34", "master-describes-the-arrays", VkArrays(e.pm, VkPointArrays(e) \cup VkCellArrays(e)))
       /\ Clause(e, "C34", "one-cell-per-leaf", shape)
       /\ IF ~shape THEN TRUE ELSE
          \E N \in {VkPer(e)} : \E pl \in {VkPlace(e)} :
          \E fields \in {\A r \in Procs(e) : VkField(e, e.R[r], Len(Q[r]))} :
          \E full \in {VkShared(e) /\ Balanced(cs[o.cs], o.I, DIM)} :
            /\ Clause(e, "C34", "cell-shapes", \A r \in Procs(e) :
                 /\ \A i \in 1..Len(Q[r]) : e.R[r].off[i] = N * i
                 /\ \A i \in 1..Len(Q[r]) : e.R[r].typ[i] =
                      IF e.mode = 2 THEN (IF DIM = 2 THEN 70 ELSE 72) ELSE (IF DIM = 2 THEN 8 ELSE 11))
            /\ Clause(e, "C34", "number-of-points", \A r \in Procs(e) :
                 /\ SetOf(e.R[r].conn) = 0..(e.R[r].np - 1)
                 /\ IF VkShared(e)
                    THEN LET pts == {<<NodeAt(Q[r][((i - 1) \div N) + 1], (i - 1) % N), e.R[r].conn[i]>> : i \in 1..Len(e.R[r].conn)}
                         IN \* the points of meshes with larger size jumps may be listed more than once
                            /\ Cardinality(pts) = e.R[r].np
                            /\ full => Cardinality({x[1] : x \in pts}) = e.R[r].np
                    ELSE e.R[r].np = N * Len(Q[r]))
            /\ Clause(e, "C34", "positions", \A r \in Procs(e) : \A i \in 1..Len(Q[r]) : \A x \in 0..(N - 1) :
                 LET p == e.R[r].conn[N * (i - 1) + pl[x] + 1] IN
                 IF e.mode = 2
                 THEN \A d \in 1..3 : e.R[r].pos[3 * p + d] =
                        IF d > DIM THEN 0 ELSE e.R[r].gp[DIM * (N * (i - 1) + x) + d]
                 ELSE (Q[r][i][2] <= 7 /\ (e.gm = 2 \/ e.tv # <<>>)) =>
                      LET q == Q[r][i]
                          ex == VkEta(q, x, 1, e.sc)
                          ey == VkEta(q, x, 2, e.sc)
                          ez == IF DIM = 2 THEN 0 ELSE VkEta(q, x, 3, e.sc)
                      IN \A d \in 1..3 : VkNear(e.R[r].pos[3 * p + d], VkMap(e.gm, e.tv, q[1], ex, ey, ez, d)))
            /\ Clause(e, "C34", "tree-level-process", \A r \in Procs(e) :
                 /\ e.R[r].tid = IF e.wt = 1 THEN [i \in 1..Len(Q[r]) |-> Q[r][i][1]] ELSE <<>>
                 /\ e.R[r].lvl = IF e.wl = 1 THEN [i \in 1..Len(Q[r]) |-> Q[r][i][2]] ELSE <<>>
                 /\ e.R[r].rk = IF e.wr = 1 THEN [i \in 1..Len(Q[r]) |-> IF e.wrap > 0 THEN (r - 1) % e.wrap ELSE r - 1] ELSE <<>>)
            /\ Clause(e, "C34", "field-lengths", fields)
            /\ IF ~fields THEN TRUE ELSE
               /\ Clause(e, "C34", "cell-fields", \A r \in Procs(e) :
                    /\ \A i \in 1..e.ncs : e.R[r].cs[i].f = e.R[r].cs[i].g
                    /\ \A i \in 1..e.ncv : e.R[r].cv[i].f = e.R[r].cv[i].g)
               /\ Clause(e, "C34", "point-fields", \A r \in Procs(e) :
                    LET R == e.R[r]
                        pt(s) == R.conn[N * (s \div N) + pl[s % N] + 1]
                        nodes == 0..(N * Len(Q[r]) - 1)
                    IN \* every point carries the value of a node there
                       /\ \A i \in 1..e.nps : {pt(s) : s \in {x \in nodes : R.ps[i].f[pt(x) + 1] = R.ps[i].g[x + 1]}} = 0..(R.np - 1)
                       /\ \A i \in 1..e.npv : {pt(s) : s \in {x \in nodes : \A d \in 1..3 : R.pv[i].f[3 * pt(x) + d] = R.pv[i].g[3 * x + d]}}
                                               = 0..(R.np - 1))

VtkOp(e) == DoVtk(e)
VtkKinds == {"vtk"}
=============================================================================
