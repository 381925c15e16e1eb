-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* Connectivity: how the trees of a forest are glued together.             *)
(*                                                                         *)
(* A connectivity value is a record                                        *)
(*   nt   number of trees                                                  *)
(*   ttt  ttt[t+1][f+1]  tree on the other side of face f                  *)
(*   ttf  ttf[t+1][f+1]  face on the other side + NF * orientation         *)
(*   eg   set of explicit edge identifications, each a set of              *)
(*        <<t, e, flip>> (DIM = 3)                                         *)
(*   cg   set of explicit corner identifications, each a set of <<t, c>>   *)
(* plus the derived fields                                                 *)
(*   eo   eo[t][e]  all <<t2, e2, flip>> glued to edge e of tree t         *)
(*   co   co[t][c]  all <<t2, c2>> glued to corner c of tree t             *)
(* The meaning of the orientation follows the definition in the public     *)
(* header: it fixes which corner of the other face the first face corner   *)
(* of the face with the lower number touches.                              *)
(***************************************************************************)
EXTENDS Quad

FAxis(f) == f \div 2 + 1
FSide(f) == f % 2

\* corners of a face in order
FaceCorners(f) ==
  LET ax == FAxis(f) IN
  IF DIM = 2
  THEN IF ax = 1 THEN <<FSide(f), FSide(f) + 2>> ELSE <<2 * FSide(f), 2 * FSide(f) + 1>>
  ELSE CASE ax = 1 -> <<FSide(f), FSide(f) + 2, FSide(f) + 4, FSide(f) + 6>>
         [] ax = 2 -> <<2 * FSide(f), 2 * FSide(f) + 1, 2 * FSide(f) + 4, 2 * FSide(f) + 5>>
         [] ax = 3 -> <<4 * FSide(f), 4 * FSide(f) + 1, 4 * FSide(f) + 2, 4 * FSide(f) + 3>>
FCn == TLCEval([f \in 0..(NF - 1) |-> FaceCorners(f)])
NFC == Pow2[DIM - 1]

\* edges (DIM = 3): 0-3 along x, 4-7 along y, 8-11 along z
EAxis(e) == e \div 4 + 1
EdgeCorners(e) ==
  LET i == (e % 4) IN
  CASE EAxis(e) = 1 -> <<2 * i, 2 * i + 1>>
    [] EAxis(e) = 2 -> <<(i % 2) + 4 * (i \div 2), (i % 2) + 4 * (i \div 2) + 2>>
    [] EAxis(e) = 3 -> <<i, i + 4>>
ECn == TLCEval([e \in 0..(NE - 1) |-> EdgeCorners(e)])
EdgeOfCorners(c1, c2) == CHOOSE e \in 0..(NE - 1) : {c1, c2} = {ECn[e][1], ECn[e][2]}
FaceEdgesDef(f) == {e \in 0..(NE - 1) : {ECn[e][1], ECn[e][2]} \subseteq SetOf(FCn[f])}
FEd == TLCEval([f \in 0..(NF - 1) |-> FaceEdgesDef(f)])
CornerFaces(c) == {f \in 0..(NF - 1) : c \in SetOf(FCn[f])}
CornerEdges(c) == {e \in 0..(NE - 1) : c \in {ECn[e][1], ECn[e][2]}}

(***************************************************************************)
(* The gluing of two faces, as a map of face corner numbers.  In 2D an     *)
(* orientation of 1 reverses the face.  In 3D the first face corner of the *)
(* lower numbered face touches face corner o of the higher numbered one;   *)
(* the rest follows from the requirement that both trees are right-handed, *)
(* i.e. whether the two face parametrisations have equal handedness.       *)
(***************************************************************************)
\* handedness of the face parametrisation w.r.t. the outward normal
\* faces are parametrised by their remaining axes in ascending order;
\* (y,z) and (x,y) are positive, (x,z) is negative w.r.t. the +axis normal
FSign(f) == LET s == IF FAxis(f) = 2 THEN -1 ELSE 1
            IN IF FSide(f) = 1 THEN s ELSE -s
\* Candidate maps of the square's corners: <<p0,p1,p2,p3>> images.
SqMaps == { <<0,1,2,3>>, <<0,2,1,3>>, <<1,0,3,2>>, <<1,3,0,2>>,
            <<2,0,3,1>>, <<2,3,0,1>>, <<3,1,2,0>>, <<3,2,1,0>> }
SqDet(m) ==   \* orientation sign of the affine map given by corner images
  LET x0 == m[1] % 2   y0 == m[1] \div 2
      x1 == m[2] % 2   y1 == m[2] \div 2
      x2 == m[3] % 2   y2 == m[3] \div 2
  IN (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
InvPerm(m) == [i \in 1..Len(m) |-> (CHOOSE j \in 1..Len(m) : m[j] = i - 1) - 1]

\* gluing two faces reverses the induced orientation when both trees are
\* right-handed, hence the required sign
GlueMap3(lo, hi, o) ==
  CHOOSE m \in SqMaps : m[1] = o /\ SqDet(m) = -(FSign(lo) * FSign(hi))
\* FaceMap(f, nf, o)[i+1] = corner of nf touched by corner i of f
FaceMapDef(f, nf, o) ==
  IF DIM = 2 THEN IF o = 0 THEN <<0, 1>> ELSE <<1, 0>>
  ELSE IF f <= nf THEN GlueMap3(f, nf, o) ELSE InvPerm(GlueMap3(nf, f, o))
FaceMapT == TLCEval([f \in 0..(NF - 1) |-> [nf \in 0..(NF - 1) |->
              [o \in 0..(NFC - 1) |-> FaceMapDef(f, nf, o)]]])
\* a tree's face may be glued to itself only with an involutive map

\* face neighbour <<nt, nf, o>>
FNb(c, t, f) == LET v == c.ttf[t + 1][f + 1]
                IN <<c.ttt[t + 1][f + 1], v % NF, v \div NF>>
IsBnd(c, t, f) == LET n == FNb(c, t, f) IN n[1] = t /\ n[2] = f

\* image of corner cn of tree t (on face f) in the neighbour across f
CornerAcross(c, t, f, cn) ==
  LET n == FNb(c, t, f)
      i == CHOOSE k \in 1..NFC : FCn[f][k] = cn
      m == FaceMapT[f][n[2]][n[3]]
  IN <<n[1], FCn[n[2]][m[i] + 1]>>
EdgeAcross(c, t, f, e) ==
  LET a == CornerAcross(c, t, f, ECn[e][1])
      b == CornerAcross(c, t, f, ECn[e][2])
      ne == EdgeOfCorners(a[2], b[2])
  IN <<a[1], ne, IF ECn[ne][1] = a[2] THEN 0 ELSE 1>>

(***************************************************************************)
(* Orbits: everything glued to one edge / corner, by closure.              *)
(***************************************************************************)
EdgeStep(c, x) ==
  {LET y == EdgeAcross(c, x[1], f, x[2]) IN <<y[1], y[2], (y[3] + x[3]) % 2>> :
     f \in {g \in 0..(NF - 1) : x[2] \in FEd[g] /\ ~IsBnd(c, x[1], g)}}
  \cup UNION { UNION { {<<y[1], y[2], (y[3] + z[3] + x[3]) % 2>> : y \in g} :
                        z \in {w \in g : w[1] = x[1] /\ w[2] = x[2]} } : g \in c.eg }
CornerStep(c, eo, x) ==
  {CornerAcross(c, x[1], f, x[2]) : f \in {g \in CornerFaces(x[2]) : ~IsBnd(c, x[1], g)}}
  \cup UNION { {<<y[1], IF (x[2] = ECn[e][1]) = (y[3] = 0) THEN ECn[y[2]][1]
                                                          ELSE ECn[y[2]][2]>>
                : y \in eo[x[1]][e]} : e \in CornerEdges(x[2]) }
  \cup UNION { g : g \in {h \in c.cg : x \in h} }

Closure(step(_), x) ==
  LET RECURSIVE Go(_, _)
      Go(front, acc) ==
        LET new == (UNION {step(y) : y \in front}) \ acc
        IN IF new = {} THEN acc ELSE Go(new, acc \cup new)
  IN Go({x}, {x})

EdgeOrbits(c) ==
  TLCEval([t \in 0..(c.nt - 1) |-> [e \in 0..(NE - 1) |->
     LET S(x) == EdgeStep(c, x) IN Closure(S, <<t, e, 0>>)]])
CornerOrbits(c, eo) ==
  TLCEval([t \in 0..(c.nt - 1) |-> [k \in 0..(NC - 1) |->
     LET S(x) == CornerStep(c, eo, x) IN Closure(S, <<t, k>>)]])

\* full connectivity value from the face tables and explicit groups
MkConn(nt, ttt, ttf, eg, cg) ==
  LET c0 == [nt |-> nt, ttt |-> ttt, ttf |-> ttf, eg |-> eg, cg |-> cg]
      eo == EdgeOrbits(c0)
  IN [nt |-> nt, ttt |-> ttt, ttf |-> ttf, eg |-> eg, cg |-> cg,
      eo |-> eo, co |-> CornerOrbits(c0, eo)]

\* the face tables describe an involutive gluing
FaceInvolution(c) ==
  \A t \in 0..(c.nt - 1) : \A f \in 0..(NF - 1) :
    LET n == FNb(c, t, f) IN
    /\ n[1] \in 0..(c.nt - 1) /\ n[2] \in 0..(NF - 1) /\ n[3] \in 0..(NFC - 1)
    /\ LET b == FNb(c, n[1], n[2]) IN b = <<t, f, n[3]>>
    /\ (n[1] = t /\ n[2] = f) => n[3] = 0

\* an edge glued to itself reversed: outside the specified class
Degenerate(c) ==
  \E t \in 0..(c.nt - 1) : \E e \in 0..(NE - 1) : <<t, e, 1>> \in c.eo[t][e]

(***************************************************************************)
(* Points and cells across a face.  c is a coordinate tuple <<x,y(,z)>> of *)
(* the lower corner of a box of side h (h = 0: a point) which lies at      *)
(* depth k >= 0 beyond (or, negative, before) face f.                      *)
(***************************************************************************)
\* remaining axes of a face in ascending order
FTang == TLCEval([f \in 0..(NF - 1) |->
   IF DIM = 2 THEN <<3 - FAxis(f)>>
   ELSE CASE FAxis(f) = 1 -> <<2, 3>> [] FAxis(f) = 2 -> <<1, 3>> [] FAxis(f) = 3 -> <<1, 2>>])

\* coordinates (function of the axis) in the neighbour's frame
AcrossFace(f, nf, o, h, co) ==
  LET ax == FAxis(f)
      depth == IF FSide(f) = 1 THEN co[ax] - ROOT ELSE (0 - h) - co[ax]
      nax == FAxis(nf)
      norm == IF FSide(nf) = 0 THEN depth ELSE (ROOT - h) - depth
      m == FaceMapT[f][nf][o]
      flip(w) == (ROOT - h) - w
  IN IF DIM = 2
     THEN LET u == co[FTang[f][1]]
              w == IF o = 0 THEN u ELSE flip(u)
          IN [a \in Axes |-> IF a = nax THEN norm ELSE w]
     ELSE LET b0 == m[1]
              ubit == m[2] ^^ b0          \* 1 or 2: target tangential axis of u
              uw == co[FTang[f][1]]
              vw == co[FTang[f][2]]
              first  == IF ubit = 1 THEN uw ELSE vw
              second == IF ubit = 1 THEN vw ELSE uw
              w1 == IF b0 % 2 = 0 THEN first ELSE flip(first)
              w2 == IF b0 \div 2 = 0 THEN second ELSE flip(second)
          IN [a \in Axes |-> IF a = nax THEN norm
                             ELSE IF a = FTang[nf][1] THEN w1 ELSE w2]
=============================================================================
