-------------------------------- MODULE Nodes -------------------------------
(***************************************************************************)
(* Positions of Lobatto nodes and of boundary objects on a 2:1 balanced    *)
(* mesh.  A node lies inside the volume, a face, an edge or a corner of an *)
(* element.  If that object hangs on a twice as large one, the node is the *)
(* one with the same index on the object of the parent.  A node position   *)
(* is therefore an independent mesh object and an index on it, which is    *)
(* expressed in the coordinates of one chosen member of the object.        *)
(***************************************************************************)
EXTENDS TraceIter

\* does face f of leaf q hang on a larger leaf
FHang(c, S, q, f) ==
  q[2] > 0 /\ Bit(Cid(q), FAxis(f)) = FSide(f)
  /\ \E v \in FaceNb(c, Parent(q), f) : v[1] \in S
FHangSet(c, S, q) == {f \in 0..(NF - 1) : FHang(c, S, q, f)}
\* edges of the parent that q sits at and that a larger leaf has as its edge
EHangSet(c, S, q) ==
  IF q[2] = 0 THEN {} ELSE
  {e \in 0..(NE - 1) : Cid(q) \in {ECn[e][1], ECn[e][2]}
                       /\ \E v \in EdgeInc(c, Parent(q), e) : v[1] \in S}

\* <<kind, number, index>> of the nodes of an element of degree N > 0
NodeSpec(N, v) ==
  LET i == [a \in Axes |-> (v \div ((N + 1) ^ (a - 1))) % (N + 1)]
      F == {f \in 0..(NF - 1) : i[FAxis(f)] = FSide(f) * N}
      n == Cardinality(F)
      rest == SelectSeq([a \in Axes |-> a], LAMBDA a : \A f \in F : FAxis(f) # a)
  IN IF n = 0 THEN <<0, 0, i>>
     ELSE IF n = DIM
     THEN <<3, CHOOSE k \in Cids : \A a \in Axes : Bit(k, a) * N = i[a], <<>>>>
     ELSE IF n = 1
     THEN <<1, CHOOSE f \in F : TRUE, [a \in 1..(DIM - 1) |-> i[rest[a]]]>>
     ELSE <<2, CHOOSE e \in 0..(NE - 1) : EFaces[e] = F, <<i[rest[1]]>>>>
Zeros == [a \in 1..(DIM - 1) |-> 0]
NodeSpecs(deg) ==
  IF deg > 0 THEN [w \in 1..((deg + 1) ^ DIM) |-> NodeSpec(deg, w - 1)]
  ELSE [f \in 1..NF |-> <<1, f - 1, Zeros>>]
       \o (IF DIM = 3 /\ deg <= -2 THEN [e \in 1..NE |-> <<2, e - 1, <<0>>>>] ELSE <<>>)
       \o (IF deg = -DIM THEN [k \in 1..NC |-> <<3, k - 1, <<>>>>] ELSE <<>>)

\* the element or parent whose object an element object stands for
Resolve(q, hf, he, kind, num) ==
  CASE kind = 0 -> q
    [] kind = 1 -> IF num \in hf THEN Parent(q) ELSE q
    [] kind = 2 -> IF num \in he \/ EFaces[num] \cap hf # {} THEN Parent(q) ELSE q
    [] kind = 3 -> IF CFaces[num] \cap hf # {} \/ (DIM = 3 /\ CEdges[num] \cap he # {})
                   THEN Parent(q) ELSE q

\* index on a face seen through the corner permutation P
FaceIdx(P, j, N) ==
  IF DIM = 2 THEN <<IF P[1] = 0 THEN j[1] ELSE N - j[1]>>
  ELSE LET d1 == P[1] ^^ P[2]
           co(b) == LET s == IF d1 = Pow2[b - 1] THEN j[1] ELSE j[2]
                    IN IF Bit(P[1], b) = 0 THEN s ELSE N - s
       IN <<co(1), co(2)>>
FacePermTo(c, x, f, can) ==
  IF can = <<x, f>> \/ ~OnTreeFace(x, f) THEN [m \in 1..NFC |-> m - 1]
  ELSE [m \in 1..NFC |-> (CHOOSE i \in 1..NFC :
          FCn[can[2]][i] = CornerAcross(c, x[1], f, FCn[f][m])[2]) - 1]

MinOf(X) == CHOOSE a \in X : \A b \in X : a <= b
\* object y = <<element or parent, kind, number>>: chosen member, index map
\* and position of the first leaf that touches it
ObjRec(c, S, I, pos, y) ==
  LET x == y[1]  num == y[3] IN
  CASE y[2] = 0 -> [can |-> <<x, 0>>, map |-> <<>>, first |-> pos[x]]
    [] y[2] = 1 ->
        LET E == FaceInc(c, x, num)
            can == CHOOSE v \in E : TRUE
        IN [can |-> can, map |-> FacePermTo(c, x, num, can),
            first |-> MinOf({pos[m] : m \in UNION {SetOf(FaceMembers(S, I, v)) : v \in E}})]
    [] y[2] = 2 ->
        LET E3 == EdgeInc3(c, x, num)
            E == {<<z[1], z[2]>> : z \in E3}
            can == CHOOSE v \in E : TRUE
        IN [can |-> can, map |-> <<(CHOOSE z \in E3 : z[1] = can[1] /\ z[2] = can[2])[3]>>,
            first |-> MinOf({pos[m] : m \in UNION {SetOf(EdgeMembers(S, I, v)) : v \in E}})]
    [] y[2] = 3 ->
        LET E == PointKey(c, x, num)
        IN [can |-> CHOOSE v \in E : TRUE, map |-> <<>>,
            first |-> MinOf({pos[CellLeaf(S, v)] : v \in E})]
\* position of the node with index j on object y with record r
NodeKey(y, r, j, N) ==
  CASE y[2] = 0 -> <<0, r.can, j>>
    [] y[2] = 1 -> <<1, r.can, FaceIdx(r.map, j, N)>>
    [] y[2] = 2 -> <<2, r.can, <<IF r.map[1] = 0 THEN j[1] ELSE N - j[1]>>>>
    [] y[2] = 3 -> <<3, r.can, <<>>>>

(***************************************************************************)
(* All nodes of a mesh: hf, he hanging objects by leaf position; key[i]    *)
(* the node keys of leaf i in element order; first[k] position of the      *)
(* owning leaf of a key.                                                   *)
(***************************************************************************)
NodeMesh(c, L, I, deg) ==
  LET S == TLCEval(SetOf(L))
      pos == PosMap(L)
      N == IF deg > 0 THEN deg ELSE 0
      NS == TLCEval(NodeSpecs(deg))
      hf == TLCEval([i \in 1..Len(L) |-> FHangSet(c, S, L[i])])
      he == TLCEval([i \in 1..Len(L) |-> IF DIM = 3 THEN EHangSet(c, S, L[i]) ELSE {}])
      objs == TLCEval({<<NS[v][1], NS[v][2]>> : v \in 1..Len(NS)})
      yof == TLCEval([i \in 1..Len(L) |-> TLCEval([o \in objs |->
                <<Resolve(L[i], hf[i], he[i], o[1], o[2]), o[1], o[2]>>])])
      ys == TLCEval(UNION {{yof[i][o] : o \in objs} : i \in 1..Len(L)})
      rec == TLCEval([y \in ys |-> ObjRec(c, S, I, pos, y)])
      key == TLCEval([i \in 1..Len(L) |-> TLCEval([v \in 1..Len(NS) |->
                LET y == yof[i][<<NS[v][1], NS[v][2]>>] IN NodeKey(y, rec[y], NS[v][3], N)])])
      fst == TLCEval(LET pr == {<<<<y[2], rec[y].can>>, rec[y].first>> : y \in ys}
                     IN [k \in {p[1] : p \in pr} |-> CHOOSE f \in 1..Len(L) : <<k, f>> \in pr])
  IN [hf |-> hf, he |-> he, key |-> key, first |-> fst]
FirstOf(M, k) == M.first[<<k[1], k[2]>>]

\* decoded hanging information of leaf number i
FaceCode(q, hf, he) ==
  IF hf = {} /\ he = {} THEN <<>>
  ELSE [f \in 1..NF |-> IF (f - 1) \in hf
          THEN (CHOOSE m \in 1..NFC : FCn[f - 1][m] = Cid(q)) - 1 ELSE -1]
       \o (IF DIM = 2 THEN <<>> ELSE
           [e \in 1..NE |->
              LET on == EFaces[e - 1] \cap hf # {} IN
              IF (e - 1) \in he THEN (IF on THEN 2 ELSE 0) + Bit(Cid(q), EAxis(e - 1))
              ELSE IF on THEN 4 ELSE -1])
=============================================================================
