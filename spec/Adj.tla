-------------------------------- MODULE Adj ---------------------------------
(***************************************************************************)
(* Adjacency of quadrants in the glued domain, 2:1 balance as a least      *)
(* fixed point, and neighbouring leaves.                                   *)
(***************************************************************************)
EXTENDS Conn

\* directions: tuples over {-1,0,1}
AllDirs == IF DIM = 2
           THEN {<<a, b>> : a \in -1..1, b \in -1..1} \ {<<0, 0>>}
           ELSE {<<a, b, e>> : a \in -1..1, b \in -1..1, e \in -1..1} \ {<<0, 0, 0>>}
NNz(d) == Cardinality({a \in Axes : d[a] # 0})
DirsUpTo(k) == {d \in AllDirs : NNz(d) <= k}
\* kind: 1 faces, 2 faces and edges (3D) or corners (2D), 3 all (3D)
KDirs == TLCEval([k \in 1..DIM |-> DirsUpTo(k)])
\* dirs as sequences: faces of a quadrant
FaceDir(f) == [a \in Axes |-> IF a = FAxis(f) THEN (IF FSide(f) = 1 THEN 1 ELSE -1) ELSE 0]

CornerQ(t, l, k) == MkQ(t, l, LAMBDA a : Bit(k, a) * (ROOT - Hl(l)))
CornerQh(t, l, k, h) == MkQ(t, l, LAMBDA a : Bit(k, a) * (ROOT - h))

\* edge number from its axis and the sides of the two other axes (ascending)
EdgeNo(ax, s1, s2) == 4 * (ax - 1) + s1 + 2 * s2
EOther == <<<<2, 3>>, <<1, 3>>, <<1, 2>>>>
\* quadrant of level l at tree edge e, at position u along it
EdgeQh(t, l, e, u, h) ==
  LET ax == EAxis(e)  o == EOther[ax]  i == (e % 4) IN
  MkQ(t, l, LAMBDA a : IF a = ax THEN u
                       ELSE IF a = o[1] THEN (i % 2) * (ROOT - h)
                       ELSE (i \div 2) * (ROOT - h))

(***************************************************************************)
(* Same-size neighbours of q in direction d.  Across a tree face there is  *)
(* at most one, across a tree edge or corner any number.                   *)
(***************************************************************************)
Nbrs(c, q, d) ==
  LET h == H(q)
      t == q[1]
      l == q[2]
      co == TLCEval(IF DIM = 2 THEN <<q[3] + d[1] * h, q[4] + d[2] * h>>
                    ELSE <<q[3] + d[1] * h, q[4] + d[2] * h, q[5] + d[3] * h>>)
      out == {a \in Axes : co[a] < 0 \/ co[a] >= ROOT}
      n == Cardinality(out)
  IN CASE n = 0 -> {<<t, l>> \o co}
       [] n = 1 ->
            LET ax == CHOOSE a \in out : TRUE
                f == 2 * (ax - 1) + (IF co[ax] < 0 THEN 0 ELSE 1)
                nb == FNb(c, t, f)
            IN IF nb[1] = t /\ nb[2] = f THEN {}
               ELSE LET r == AcrossFace(f, nb[2], nb[3], h, co)
                    IN {MkQ(nb[1], l, LAMBDA a : r[a])}
       [] n = DIM ->
            LET k == (IF co[1] < 0 THEN 0 ELSE 1) + (IF co[2] < 0 THEN 0 ELSE 2)
                     + (IF DIM = 2 \/ co[DIM] < 0 THEN 0 ELSE 4)
            IN {CornerQ(x[1], l, x[2]) : x \in c.co[t][k] \ {<<t, k>>}}
       [] OTHER ->
            LET ax == CHOOSE a \in Axes : a \notin out
                o == EOther[ax]
                e == EdgeNo(ax, IF co[o[1]] < 0 THEN 0 ELSE 1, IF co[o[2]] < 0 THEN 0 ELSE 1)
            IN {EdgeQh(x[1], l, x[2], IF x[3] = 0 THEN co[ax] ELSE (ROOT - h) - co[ax], h)
                 : x \in c.eo[t][e] \ {<<t, e, 0>>}}

NbrsK(c, q, k) == UNION {Nbrs(c, q, d) : d \in KDirs[k]}

(***************************************************************************)
(* 2:1 balance of kind k.  A tree structure is given by its refined nodes. *)
(* It is balanced iff for every refined node p, the same-size neighbours   *)
(* of p across entities of the kind exist, i.e. their parents are refined. *)
(* The coarsest balanced refinement is the least superset closed under     *)
(* that rule; it is computed level by level from the deepest.              *)
(***************************************************************************)
MaxLv(S) == LET RECURSIVE M(_, _)
                M(T, m) == IF T = {} THEN m
                           ELSE M({q \in T : q[2] > m}, m + 1)
            IN M(S, 0)
BalanceInterior(c, I, k) ==
  LET RECURSIVE Down(_, _, _)
      \* acc: closed for levels > l; cur: refined nodes of level l
      Down(l, cur, acc) ==
        IF l = 0 THEN acc \cup cur
        ELSE LET need == {Parent(n) : n \in UNION {NbrsK(c, p, k) : p \in cur}}
                 low == {p \in I : p[2] = l - 1} \cup {Parent(p) : p \in cur} \cup need
             IN Down(l - 1, TLCEval(low), acc \cup cur)
      m == MaxLv(I)
  IN Down(m, {p \in I : p[2] = m}, {})

Balanced(c, I, k) ==
  \A p \in I : p[2] = 0 \/ \A n \in NbrsK(c, p, k) : Parent(n) \in I

(***************************************************************************)
(* Where the trees around every corner and edge form a piece of a regular  *)
(* lattice, the coarsest balanced refinement is the one required.  Around  *)
(* other corners and edges (domain corners that reenter, trees that share  *)
(* only an edge or corner, irregular numbers of trees) the library treats  *)
(* diagonal trees as in the regular lattice: it may then refine more for   *)
(* a kind less than full, but never more than balance of the full kind.    *)
(***************************************************************************)
CnFaceNb(c, x) == {CornerAcross(c, x[1], f, x[2]) : f \in {g \in CornerFaces(x[2]) : ~IsBnd(c, x[1], g)}}
CnEdgeNb(c, x) ==
  UNION { {<<y[1], IF (x[2] = ECn[e][1]) = (y[3] = 0) THEN ECn[y[2]][1] ELSE ECn[y[2]][2]>>
           : y \in c.eo[x[1]][e]} : e \in CornerEdges(x[2]) }
EgFaceNb(c, x) == {LET y == EdgeAcross(c, x[1], f, x[2]) IN <<y[1], y[2]>> :
                     f \in {g \in 0..(NF - 1) : x[2] \in FEd[g] /\ ~IsBnd(c, x[1], g)}}
\* no boundary face at the corner / edge, and the lattice of four (eight) trees
\* or no diagonal pair at all
EdgePairs(c, t, e) == {<<y[1], y[2]>> : y \in c.eo[t][e]}
EdgeRegular(c, t, e) ==
  LET O == EdgePairs(c, t, e) IN
  /\ Cardinality(O) = 4
  /\ \A x \in O : Cardinality(EgFaceNb(c, x) \ {x}) = 2
  /\ \A x \in O : O = {x} \cup EgFaceNb(c, x) \cup UNION {EgFaceNb(c, y) : y \in EgFaceNb(c, x)}
EdgeExact(c, t, e) ==
  EdgeRegular(c, t, e) \/ EdgePairs(c, t, e) \subseteq ({<<t, e>>} \cup EgFaceNb(c, <<t, e>>))
CornerRegular(c, t, n) ==
  LET O == c.co[t][n]
      two(x) == {x} \cup CnFaceNb(c, x) \cup UNION {CnFaceNb(c, y) : y \in CnFaceNb(c, x)}
  IN /\ Cardinality(O) = NC
     /\ \A x \in O : Cardinality(CnFaceNb(c, x) \ {x}) = DIM
     /\ IF DIM = 2 THEN \A x \in O : O = two(x)
        ELSE /\ \A x \in O : O = UNION {two(y) : y \in CnFaceNb(c, x)}
             /\ \A x \in O : \A e \in CornerEdges(x[2]) : EdgeRegular(c, x[1], e)
CornerExact(c, t, n) ==
  CornerRegular(c, t, n) \/
    c.co[t][n] \subseteq ({<<t, n>>} \cup CnFaceNb(c, <<t, n>>)
                            \cup (IF DIM = 2 THEN {} ELSE CnEdgeNb(c, <<t, n>>)))
RegularLinks(c, k) ==
  k = DIM \/ \A t \in 0..(c.nt - 1) :
               /\ \A n \in Cids : CornerExact(c, t, n)
               /\ k = 1 => \A e \in 0..(NE - 1) : EdgeExact(c, t, e)
\* no tree meets itself in a corner
NoSelfContact(c) ==
  \A t \in 0..(c.nt - 1) : \A n \in Cids :
     Cardinality({x[1] : x \in c.co[t][n]}) = Cardinality(c.co[t][n])
BalanceOk(c, I0, I1, k) ==
  LET low == BalanceInterior(c, I0, k) IN
  \/ I1 = low
  \/ ~RegularLinks(c, k) /\ low \subseteq I1 /\ I1 \subseteq BalanceInterior(c, I0, DIM)

(***************************************************************************)
(* Leaves of S touching the leaf q across an entity of kind <= k.          *)
(* Equal or coarser neighbours are found from q; finer ones from the       *)
(* refined same-size neighbour by descending along the touching side.      *)
(* To be exact also on unbalanced meshes, the relation is computed as the  *)
(* symmetric closure of "the equal or coarser leaf over a neighbour of q". *)
(***************************************************************************)
CoarseNbrs(c, S, q, k) == UNION {LeafOver(S, n) : n \in NbrsK(c, q, k)}

\* all pairs <<finer or equal leaf, equal or coarser leaf>> of kind k
AdjPairs(c, S, k) ==
  UNION {{<<q, m>> : m \in CoarseNbrs(c, S, q, k)} : q \in S}
=============================================================================
