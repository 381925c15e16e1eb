-------------------------------- MODULE Inc ---------------------------------
(***************************************************************************)
(* Incidence of same-size quadrants around a common face, edge or corner   *)
(* of the glued domain.  An entity is identified with the set of all       *)
(* <<quadrant, number of the entity in it>> around it.                     *)
(***************************************************************************)
EXTENDS Forest

\* the same-size neighbour across face f and the number of the face there
FaceNb(c, q, f) ==
  LET d == FaceDir(f)
      h == H(q)
      co == IF DIM = 2 THEN <<q[3] + d[1] * h, q[4] + d[2] * h>>
            ELSE <<q[3] + d[1] * h, q[4] + d[2] * h, q[5] + d[3] * h>>
  IN IF \A a \in Axes : co[a] >= 0 /\ co[a] < ROOT THEN {<<<<q[1], q[2]>> \o co, f ^^ 1>>}
     ELSE LET nb == FNb(c, q[1], f) IN
          IF nb[1] = q[1] /\ nb[2] = f THEN {}
          ELSE LET r == AcrossFace(f, nb[2], nb[3], h, co)
               IN {<<MkQ(nb[1], q[2], LAMBDA a : r[a]), nb[2]>>}
FaceInc(c, q, f) == {<<q, f>>} \cup FaceNb(c, q, f)

\* does face f of q lie on the boundary of its tree
OnTreeFace(q, f) ==
  LET v == q[2 + FAxis(f)] IN IF FSide(f) = 0 THEN v = 0 ELSE v + H(q) = ROOT

\* corner number across face f, inside the tree: other side of that axis
CornerFlip(k, f) == k ^^ Pow2[FAxis(f) - 1]
EdgeFlipT == TLCEval([e \in 0..(NE - 1) |-> [f \in 0..(NF - 1) |->
   IF e \in FEd[f]
   THEN EdgeOfCorners(CornerFlip(ECn[e][1], f), CornerFlip(ECn[e][2], f)) ELSE -1]])

CFaces == TLCEval([k \in Cids |-> CornerFaces(k)])
CEdges == TLCEval([k \in Cids |-> CornerEdges(k)])
EFaces == TLCEval([e \in 0..(NE - 1) |-> {f \in 0..(NF - 1) : e \in FEd[f]}])

\* edge e of q lies on the edge e of the tree
OnTreeEdge(q, e) == \A f \in EFaces[e] : OnTreeFace(q, f)
OnTreeCorner(q, k) == \A f \in CFaces[k] : OnTreeFace(q, f)

\* <<quadrant, edge, flip>>
EdgeIncStep(c, x) ==
  LET q == x[1]  e == x[2] IN
  UNION {IF ~OnTreeFace(q, f)
         THEN {<<y[1], EdgeFlipT[e][f], x[3]>> : y \in FaceNb(c, q, f)}
         ELSE {LET z == EdgeAcross(c, q[1], f, e) IN <<y[1], z[2], (x[3] + z[3]) % 2>> : y \in FaceNb(c, q, f)}
         : f \in EFaces[e]}
  \cup IF OnTreeEdge(q, e)
       THEN LET u == q[2 + EAxis(e)]  h == H(q) IN
            {<<EdgeQh(y[1], q[2], y[2], IF y[3] = 0 THEN u ELSE (ROOT - h) - u, h), y[2], (x[3] + y[3]) % 2>>
              : y \in c.eo[q[1]][e]}
       ELSE {}
EdgeInc3(c, q, e) == LET S(x) == EdgeIncStep(c, x) IN Closure(S, <<q, e, 0>>)
EdgeInc(c, q, e) == {<<x[1], x[2]>> : x \in EdgeInc3(c, q, e)}

\* <<quadrant, corner>>
CornerIncStep(c, x) ==
  LET q == x[1]  k == x[2]  h == H(q) IN
  UNION {IF ~OnTreeFace(q, f)
         THEN {<<y[1], CornerFlip(k, f)>> : y \in FaceNb(c, q, f)}
         ELSE {<<y[1], CornerAcross(c, q[1], f, k)[2]>> : y \in FaceNb(c, q, f)}
         : f \in CFaces[k]}
  \cup (IF DIM = 2 THEN {} ELSE
        UNION {IF OnTreeEdge(q, e)
               THEN LET u == q[2 + EAxis(e)]
                        b == IF ECn[e][1] = k THEN 0 ELSE 1
                    IN {<<EdgeQh(y[1], q[2], y[2], IF y[3] = 0 THEN u ELSE (ROOT - h) - u, h),
                          ECn[y[2]][((b + y[3]) % 2) + 1]>> : y \in c.eo[q[1]][e]}
               ELSE {} : e \in CEdges[k]})
  \cup IF OnTreeCorner(q, k)
       THEN {<<CornerQh(y[1], q[2], y[2], h), y[2]>> : y \in c.co[q[1]][k]}
       ELSE {}
CornerInc(c, q, k) == LET S(x) == CornerIncStep(c, x) IN Closure(S, <<q, k>>)

\* the smallest quadrant in corner k of q
CornerCell(q, k) ==
  LET s == H(q) - Hl(QMAXL) IN MkQ(q[1], QMAXL, LAMBDA a : q[2 + a] + Bit(k, a) * s)
\* the point at corner k of q, as the incidence of smallest cells around it
PointKey(c, q, k) == CornerInc(c, CornerCell(q, k), k)

\* number of tree faces an entity lies on
TreeFacesOf(q, fs) == Cardinality({f \in fs : OnTreeFace(q, f)})
BndCode(n, dimOfTreeEntity) == n
=============================================================================
