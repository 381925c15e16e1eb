----------------------------- MODULE TraceMesh ------------------------------
(***************************************************************************)
(* Mesh lookup tables (C15).  Every table of a process is determined by    *)
(* the leaves, the gluing and the local numbering: local leaves first,     *)
(* then the ghosts in the order of the ghost layer.                        *)
(***************************************************************************)
EXTENDS TraceNodes

BagEq(s, t) == Len(s) = Len(t) /\ \A x \in SetOf(s) \cup SetOf(t) :
   Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(t) : t[i] = x})
HasPair(s, p) == \E i \in 1..(Len(s) - 1) : s[i] = p[1] /\ s[i + 1] = p[2]
FcIdx(f, k) == (CHOOSE i \in 1..NFC : FCn[f][i] = k) - 1

\* table entry of face f of leaf q: <<list of neighbour leaves, code>>
MFace(c, S, q, f) ==
  LET nb == FaceNb(c, q, f) IN
  IF nb = {} THEN <<<<q>>, f>>
  ELSE LET v == CHOOSE x \in nb : TRUE
           m == v[1]
           nf == v[2]
           ori == IF OnTreeFace(q, f) THEN FNb(c, q[1], f)[3] ELSE 0
       IN IF m \in S THEN <<<<m>>, NF * ori + nf>>
          ELSE LET big == LeafOver(S, m) IN
               IF big # {}
               THEN <<<<CHOOSE x \in big : TRUE>>, NF * (ori + (FcIdx(nf, Cid(m)) + 1) * NFC) + nf>>
               ELSE <<[i \in 1..NFC |-> LET z == CHOOSE y \in FaceNb(c, Child(q, FCn[f][i]), f) : TRUE IN z[1]],
                      NF * (ori - NFC) + nf>>

\* do two corners of smallest cells at one point share a face or an edge
CShare(c, x, y) ==
  \/ \E f \in CFaces[x[2]] : \E z \in FaceNb(c, x[1], f) : z[1] = y[1] /\ y[2] \in SetOf(FCn[z[2]])
       /\ (IF OnTreeFace(x[1], f) THEN CornerAcross(c, x[1][1], f, x[2])[2] = y[2]
           ELSE CornerFlip(x[2], f) = y[2])
  \/ DIM = 3 /\ \E e \in CEdges[x[2]] : \E z \in EdgeInc3(c, x[1], e) :
       z[1] = y[1] /\ LET b == IF ECn[e][1] = x[2] THEN 0 ELSE 1
                      IN ECn[z[2]][((b + z[3]) % 2) + 1] = y[2]
OnBndC(q, k) == \E f \in CFaces[k] : OnTreeFace(q, f)
OnBndE(q, e) == \E f \in EFaces[e] : OnTreeFace(q, f)

\* entry of corner k of leaf q: <<"none">>, <<"hang">>, <<"one", leaf>> or
\* <<"grp", list of <<leaf, corner>> >>
MCorner(c, S, q, k) ==
  LET x == <<CornerCell(q, k), k>>
      E == CornerInc(c, x[1], k)
  IN IF ~CornerValid(S, E) THEN <<"hang">>
     ELSE LET D == SetToSeq({y \in E \ {x} : ~CShare(c, x, y)}) IN
          IF D = <<>> THEN <<"none">>
          ELSE IF OnBndC(q, k) THEN <<"grp", [i \in 1..Len(D) |-> <<CellLeaf(S, D[i]), D[i][2]>>]>>
          ELSE <<"one", CellLeaf(S, D[1])>>

\* members around an edge that do not share a face with <<q, e>>
EShare(c, q, e, z) ==
  \E f \in EFaces[e] : \E y \in FaceNb(c, q, f) : y[1] = z[1] /\ z[2] \in FEd[y[2]]
     /\ (IF OnTreeFace(q, f) THEN EdgeAcross(c, q[1], f, e)[2] = z[2] ELSE EdgeFlipT[e][f] = z[2])
\* entry of edge e of leaf q: as for corners with <<leaf, edge code>>
MEdge(c, S, I, q, e, hang) ==
  LET p == IF hang THEN Parent(q) ELSE q
      E3 == EdgeInc3(c, p, e)
      b == Bit(Cid(q), EAxis(e))
      D == SetToSeq({z \in E3 : z # <<p, e, 0>> /\ ~EShare(c, p, e, z)})
      ent(z) == LET fl == z[3]  ee == z[2]  big == z[1] \in S IN
        IF hang THEN (IF big THEN <<<<z[1], 24 + 24 * ((b + fl) % 2) + 12 * fl + ee>>>>
                      ELSE <<<<Child(z[1], ECn[ee][((b + fl) % 2) + 1]), 12 * fl + ee>>>>)
        ELSE IF big THEN <<<<z[1], 12 * fl + ee>>>>
        ELSE [j \in 1..2 |-> <<Child(z[1], ECn[ee][((fl + j - 1) % 2) + 1]), 12 * fl + ee - 24>>]
  IN IF \E z \in E3 : z[1] \notin S /\ z[1] \notin I THEN <<"hang">>
     ELSE IF D = <<>> THEN <<"none">>
     ELSE IF ~OnBndE(q, e) /\ (hang = (D[1][1] \notin S)) THEN <<"one", ent(D[1])[1][1]>>
     ELSE <<"grp", Flat([i \in 1..Len(D) |-> ent(D[i])]),
            {ent(D[i]) : i \in {w \in 1..Len(D) : ~hang /\ D[w][1] \in I}}>>

\* corner k of q is the midpoint of an edge of the parent that hangs on a
\* larger leaf: the other half on the diagonal side
MMid(c, S, I, q, k, he) ==
  LET es == {e \in he : k = ECn[e][1] + ECn[e][2] - Cid(q)} IN
  IF Cardinality(es) # 1 THEN <<"hang">>
  ELSE LET e == CHOOSE x \in es : TRUE
           p == Parent(q)
           b == Bit(Cid(q), EAxis(e))
           D == SetToSeq({z \in EdgeInc3(c, p, e) : z # <<p, e, 0>> /\ ~EShare(c, p, e, z) /\ z[1] \in I})
           ent(z) == LET w == ((b + z[3]) % 2) IN
                     <<Child(z[1], ECn[z[2]][(1 - w) + 1]), ECn[z[2]][w + 1]>>
       IN IF D = <<>> THEN <<"hang">>
          ELSE IF OnBndE(q, e) THEN <<"grp", [i \in 1..Len(D) |-> ent(D[i])]>>
          ELSE <<"one", ent(D[1])[1]>>

MeshShape(e, o, r, R, hasE, hasC) ==
  LET n == o.cut[r + 1] - o.cut[r] IN
  /\ R.n = n /\ R.ng = Len(aux.gh[e.g].R[r].g)
  /\ Len(R.qtq) = NF * n /\ Len(R.qtf) = NF * n /\ Len(R.qth) % NFC = 0
  /\ Len(R.g2p) = R.ng
  /\ Len(R.qtc) = IF hasC THEN NC * n ELSE 0
  /\ DIM = 3 => Len(R.qte) = (IF hasE THEN NE * n ELSE 0)
  /\ Len(R.fn) = n /\ Len(R.cu) = n
  /\ \A i \in 1..Len(R.qtq) : IF R.qtf[i] < 0 THEN R.qtq[i] >= 0 /\ NFC * (R.qtq[i] + 1) <= Len(R.qth)
                              ELSE R.qtq[i] >= 0 /\ R.qtq[i] < n + R.ng

\* a group table is well-formed
GroupsOk(n, off, quads, codes) ==
  /\ Len(off) = n + 1 /\ off[1] = 0 /\ off[n + 1] = Len(quads) /\ Len(quads) = Len(codes)
  /\ \A i \in 1..n : off[i] < off[i + 1]
GroupAt(off, quads, codes, g) ==
  [j \in 1..(off[g + 2] - off[g + 1]) |-> <<quads[off[g + 1] + j], codes[off[g + 1] + j]>>]

DoMesh(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ Is({"C15"}) =>
     \E o \in {fs[e.s]} : \E c \in {cs[o.cs]} : \E S \in {SetOf(o.L)} : \E pos \in {PosMap(o.L)} :
     \E hasC \in {e.kind = DIM} : \E hasE \in {DIM = 3 /\ e.kind >= 2 /\ Directed(c, o.L)} :
     \E exact \in {e.x % 2 = 1} :
     \E r \in {0} : \A rr \in Procs(e) :
     \E R \in {e.R[rr]} :
     \E n \in {o.cut[rr + 1] - o.cut[rr]} :
     \E gl \in {aux.gh[e.g].R[rr].g} :
     \E shape \in {MeshShape(e, o, rr, R, DIM = 3 /\ e.kind >= 2, hasC)} :
       /\ Clause(e, "C15", "shape", shape)
       /\ shape =>
          \E gi \in {[q \in SetOf(gl) |-> n + (CHOOSE i \in 1..Len(gl) : gl[i] = q) - 1]} :
          \E loc \in {[i \in 1..n |-> o.L[o.cut[rr] + i]]} :
          \E T \in {n + R.ng} :
          \E idx \in {[q \in SetOf(loc) \cup SetOf(gl) |->
                        IF q \in DOMAIN gi THEN gi[q] ELSE pos[q] - o.cut[rr] - 1]} :
          \E byIdx \in {[j \in 0..(T - 1) |-> IF j < n THEN loc[j + 1] ELSE gl[j - n + 1]]} :
          \E F \in {[i \in 1..n |-> [f \in 0..(NF - 1) |-> MFace(c, S, loc[i], f)]]} :
          \E he \in {[i \in 1..n |-> IF hasE THEN EHangSet(c, S, loc[i]) ELSE {}]} :
          \E C0 \in {[i \in 1..n |-> [k \in Cids |-> IF hasC THEN MCorner(c, S, loc[i], k) ELSE <<"hang">>]]} :
          \E C \in {[i \in 1..n |-> [k \in Cids |->
                      IF hasC /\ hasE /\ (e.x \div 4) % 2 = 1 /\ C0[i][k] = <<"hang">>
                      THEN MMid(c, S, o.I, loc[i], k, he[i]) ELSE C0[i][k]]]} :
          \E Ed \in {[i \in 1..n |-> [k \in 0..(NE - 1) |->
                      IF hasE THEN MEdge(c, S, o.I, loc[i], k, k \in he[i]) ELSE <<"hang">>]]} :
          \E face \in {[i \in 1..n |-> [f \in 0..(NF - 1) |->
                 LET z == NF * (i - 1) + f + 1 IN
                 IF R.qtf[z] >= 0 THEN <<<<R.qtq[z]>>, R.qtf[z]>>
                 ELSE <<[h \in 1..NFC |-> R.qth[NFC * R.qtq[z] + h]], R.qtf[z]>>]]} :
          \E want \in {[i \in 1..n |-> [f \in 0..(NF - 1) |->
                 <<[h \in 1..Len(F[i][f][1]) |-> idx[F[i][f][1][h]]], F[i][f][2]>>]]} :
          \E gC \in {GroupsOk(R.lnc, R.co, R.cq, R.cc) \/ ~hasC} :
          \E gE \in {~hasE \/ GroupsOk(R.lne, R.eo, R.eq, R.ee)} :
            /\ Clause(e, "C15", "faces", \A i \in 1..n : \A f \in 0..(NF - 1) : face[i][f] = want[i][f])
            /\ Clause(e, "C15", "ghost-owner", \A j \in 1..R.ng : R.g2p[j] = OwnerOf(o.cut, pos[gl[j]] - 1))
            /\ Clause(e, "C15", "quad-to-tree",
                 R.qtt = IF exact THEN [i \in 1..n |-> loc[i][1]] ELSE <<>>)
            /\ Clause(e, "C15", "level-lists",
                 IF (e.x \div 2) % 2 = 0 THEN R.lev = <<>>
                 ELSE \A v \in 1..(QMAXL + 1) :
                        R.lev[v] = SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : loc[i + 1][2] = v - 1))
            /\ Clause(e, "C15", "corner-groups", gC)
            /\ Clause(e, "C15", "edge-groups", gE)
            /\ (hasC /\ gC) =>
               /\ Clause(e, "C15", "corners", \A i \in 1..n : \A k \in Cids :
                   LET v == R.qtc[NC * (i - 1) + k + 1]  w == C[i][k] IN
                   CASE w[1] = "hang" -> v = -1
                     [] w[1] = "none" -> v = -3
                     [] w[1] = "one" -> v = idx[w[2]]
                     [] w[1] = "grp" -> v >= T /\ v - T < R.lnc
                           /\ BagEq(GroupAt(R.co, R.cq, R.cc, v - T),
                                    [j \in 1..Len(w[2]) |-> <<idx[w[2][j][1]], w[2][j][2]>>]))
               /\ Clause(e, "C15", "corner-groups-used",
                    {R.qtc[j] - T : j \in {z \in 1..Len(R.qtc) : R.qtc[z] >= T}} = 0..(R.lnc - 1))
            /\ (hasE /\ gE) =>
               /\ Clause(e, "C15", "edges", \A i \in 1..n : \A k \in 0..(NE - 1) :
                   LET v == R.qte[NE * (i - 1) + k + 1]  w == Ed[i][k] IN
                   CASE w[1] = "hang" -> v = -1
                     [] w[1] = "none" -> v = -3
                     [] w[1] = "one" -> v = idx[w[2]]
                     [] w[1] = "grp" -> v >= T /\ v - T < R.lne
                           /\ LET g == GroupAt(R.eo, R.eq, R.ee, v - T)
                                  im(y) == [j \in 1..Len(y) |-> <<idx[y[j][1]], y[j][2]>>]
                              IN BagEq(g, im(w[2])) /\ \A y \in w[3] : HasPair(g, im(y)))
               /\ Clause(e, "C15", "edge-groups-used",
                    {R.qte[j] - T : j \in {z \in 1..Len(R.qte) : R.qte[z] >= T}} = 0..(R.lne - 1))
            /\ Clause(e, "C15", "face-iterator", \A i \in 1..n :
                 R.fn[i] = Flat([z \in 1..NF |-> LET w == want[i][z - 1]  ls == F[i][z - 1][1] IN
                    [h \in 1..Len(w[1]) |->
                       LET q == ls[h]  j == w[1][h] IN
                       <<q[1],
                         IF j >= n THEN j - n
                         ELSE j - Cardinality({y \in 1..n : loc[y][1] < q[1]}),
                         w[2], OwnerOf(o.cut, pos[q] - 1), q,
                         IF o.dsz > 0 THEN o.V[pos[q]] ELSE 0>>]]))
            /\ Clause(e, "C15", "cumulative", \A i \in 1..n :
                 R.cu[i] = <<loc[i][1], i - 1 - Cardinality({y \in 1..n : loc[y][1] < loc[i][1]}), loc[i]>>)
            /\ (e.x \div 16) % 2 = 1 =>
               Clause(e, "C15", "neighbor-query",
                 /\ Len(R.nb) = n
                 /\ \A i \in 1..n : \A d \in 1..Len(R.nb[i]) :
                      LET oe == NF + (IF DIM = 3 /\ e.kind >= 2 THEN NE ELSE 0)
                          got == R.nb[i][d]
                          out(j, v) == <<IF j >= n THEN j - n ELSE j, IF j >= n THEN -v ELSE v,
                                         IF exact THEN byIdx[j] ELSE <<>>>>
                          code(v) == IF v >= 0 THEN v + 1
                                     ELSE v + (NF * NFC) + (IF DIM = 2 THEN 24 ELSE 120) + 1
                          ecode(v) == IF v >= 0 THEN v + 1 ELSE v + 24 + 72 + 1
                      IN IF d <= NF
                         THEN LET w == want[i][d - 1] IN
                              got = IF FaceNb(c, loc[i], d - 1) = {} THEN <<>>
                                    ELSE [h \in 1..Len(w[1]) |-> out(w[1][h], code(w[2]))]
                         ELSE IF d <= oe /\ ~hasE THEN TRUE
                         ELSE IF d <= oe
                         THEN LET w == Ed[i][d - NF - 1] IN
                              CASE w[1] \in {"hang", "none"} -> got = <<>>
                                [] w[1] = "one" -> got = <<out(idx[w[2]], ((d - NF - 1) ^^ 3) + 1)>>
                                [] w[1] = "grp" -> BagEq(got, [j \in 1..Len(w[2]) |-> out(idx[w[2][j][1]], ecode(w[2][j][2]))])
                         ELSE LET w == C[i][d - oe - 1] IN
                              CASE w[1] \in {"hang", "none"} -> got = <<>>
                                [] w[1] = "one" -> got = <<out(idx[w[2]], ((d - oe - 1) ^^ (NC - 1)) + 1)>>
                                [] w[1] = "grp" -> BagEq(got, [j \in 1..Len(w[2]) |-> out(idx[w[2][j][1]], w[2][j][2] + 1)]))

MeshOp(e) == DoMesh(e)
MeshKinds == {"mesh"}
=============================================================================
