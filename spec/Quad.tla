-------------------------------- MODULE Quad --------------------------------
(***************************************************************************)
(* Quadrant (octant) algebra.                                              *)
(*                                                                         *)
(* A quadrant is the tuple <<tree, level, x, y>> (DIM = 2) or              *)
(* <<tree, level, x, y, z>> (DIM = 3).  Coordinates are integers in units  *)
(* of 2^-30 of the tree length; the quadrant of level l covers             *)
(* [c, c + Hl(l)) along every axis.  Everything here is defined from the   *)
(* geometry of the octree; nothing is taken from the implementation.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

CONSTANT DIM                       \* 2 or 3

MAXL  == 30                        \* exponent of the root length
QMAXL == 29                        \* deepest level of a quadrant

Pow2 == TLCEval([i \in 0..30 |-> 2^i])
ROOT == Pow2[30]
Hl(l) == Pow2[MAXL - l]            \* side length at level l

NC   == Pow2[DIM]                  \* children / corners
NF   == 2 * DIM                    \* faces
NE   == IF DIM = 3 THEN 12 ELSE 0  \* edges
Axes == TLCEval(1..DIM)
Cids == TLCEval(0..(NC-1))

Tr(q)    == q[1]
Lv(q)    == q[2]
Co(q, a) == q[2 + a]
H(q)     == Pow2[MAXL - q[2]]

MkQ(t, l, c(_)) == IF DIM = 2 THEN <<t, l, c(1), c(2)>>
                              ELSE <<t, l, c(1), c(2), c(3)>>
RootQ(t) == IF DIM = 2 THEN <<t, 0, 0, 0>> ELSE <<t, 0, 0, 0, 0>>

\* bit of axis a in a corner/child number
Bit(i, a) == (i \div Pow2[a - 1]) % 2

Child(q, i) ==
  LET h == Hl(q[2] + 1) IN
  IF DIM = 2
  THEN <<q[1], q[2] + 1, q[3] + (i % 2) * h, q[4] + (i \div 2) * h>>
  ELSE <<q[1], q[2] + 1, q[3] + (i % 2) * h, q[4] + ((i \div 2) % 2) * h,
         q[5] + (i \div 4) * h>>

Children(q) == {Child(q, i) : i \in Cids}

\* ancestor of q at level l <= Lv(q)
Anc(q, l) ==
  LET h == Hl(l) IN
  IF DIM = 2 THEN <<q[1], l, q[3] - (q[3] % h), q[4] - (q[4] % h)>>
  ELSE <<q[1], l, q[3] - (q[3] % h), q[4] - (q[4] % h), q[5] - (q[5] % h)>>

Parent(q) == Anc(q, q[2] - 1)

\* child number of the ancestor of q at level l >= 1
CidAt(q, l) ==
  LET h == Hl(l) IN
  IF DIM = 2 THEN ((q[3] \div h) % 2) + 2 * ((q[4] \div h) % 2)
  ELSE ((q[3] \div h) % 2) + 2 * ((q[4] \div h) % 2) + 4 * ((q[5] \div h) % 2)
Cid(q) == IF q[2] = 0 THEN 0 ELSE CidAt(q, q[2])

IsAncEq(a, b) == a[1] = b[1] /\ a[2] <= b[2] /\ Anc(b, a[2]) = a
IsAnc(a, b)   == a[2] < b[2] /\ IsAncEq(a, b)
Overlap(a, b) == IsAncEq(a, b) \/ IsAncEq(b, a)

Sibling(q, i) == IF q[2] = 0 THEN q ELSE Child(Parent(q), i)

Aligned(c, l) == c % Hl(l) = 0
InRoot(q) == \A a \in Axes : q[2 + a] >= 0 /\ q[2 + a] < ROOT
WellFormed(q, nt) ==
  /\ q[1] \in 0..(nt - 1) /\ q[2] \in 0..QMAXL
  /\ \A a \in Axes : q[2 + a] >= 0 /\ q[2 + a] <= ROOT - H(q) /\ Aligned(q[2 + a], q[2])

FirstDesc(q, l) == [q EXCEPT ![2] = l]
LastDesc(q, l) ==
  LET s == Hl(q[2]) - Hl(l) IN
  IF DIM = 2 THEN <<q[1], l, q[3] + s, q[4] + s>>
             ELSE <<q[1], l, q[3] + s, q[4] + s, q[5] + s>>

(***************************************************************************)
(* Space filling curve order.  The curve visits the children of a node in  *)
(* the order of their numbers, so two positions compare by the most        *)
(* significant differing bit, the last axis first; an ancestor precedes    *)
(* its descendants.                                                        *)
(***************************************************************************)
LessMsb(x, y) == x < y /\ x < (x ^^ y)
PosCmp(p, q) ==                    \* -1, 0, 1 for anchors (nonnegative)
  LET \* the higher axis wins among bits of equal significance
      ax2b == IF LessMsb(p[4] ^^ q[4], p[3] ^^ q[3]) THEN 3 ELSE 4
      ax  == IF DIM = 2 THEN ax2b
             ELSE IF LessMsb(p[5] ^^ q[5], p[ax2b] ^^ q[ax2b]) THEN ax2b ELSE 5
  IN IF p[ax] < q[ax] THEN -1 ELSE IF p[ax] > q[ax] THEN 1 ELSE 0
QCmp(p, q) ==
  IF p[1] # q[1] THEN (IF p[1] < q[1] THEN -1 ELSE 1)
  ELSE LET c == PosCmp(p, q) IN
       IF c # 0 THEN c ELSE IF p[2] < q[2] THEN -1 ELSE IF p[2] > q[2] THEN 1 ELSE 0
QLess(p, q) == QCmp(p, q) < 0

(***************************************************************************)
(* The position on the curve directly after quadrant q: the next sibling   *)
(* of the smallest ancestor that is not a last child; <<>> at tree end.    *)
(***************************************************************************)
RECURSIVE NextAfter(_)
NextAfter(q) ==
  IF q[2] = 0 THEN <<>>
  ELSE LET i == Cid(q) IN
       IF i < NC - 1 THEN Child(Parent(q), i + 1) ELSE NextAfter(Parent(q))

\* p starts exactly where n starts and lies within it
StartsIn(n, p) == p[1] = n[1] /\ p[2] >= n[2]
                  /\ \A a \in Axes : p[2 + a] = n[2 + a]

\* b is the leaf right after a in a gap-free ordered sequence of trees 0..nt-1
Follows(a, b) ==
  LET n == NextAfter(a) IN
  IF n = <<>> THEN b[1] = a[1] + 1 /\ \A x \in Axes : b[2 + x] = 0
              ELSE StartsIn(n, b)

\* the sequence L covers trees 0..nt-1 exactly once in curve order
Tiling(L, nt) ==
  /\ Len(L) >= nt
  /\ \A i \in 1..Len(L) : WellFormed(L[i], nt)
  /\ L[1][1] = 0 /\ \A x \in Axes : L[1][2 + x] = 0
  /\ \A i \in 1..(Len(L) - 1) : Follows(L[i], L[i + 1])
  /\ L[Len(L)][1] = nt - 1 /\ NextAfter(L[Len(L)]) = <<>>

SetOf(L) == {L[i] : i \in 1..Len(L)}

(***************************************************************************)
(* The interior (refined) nodes of a leaf set: all proper ancestors.       *)
(***************************************************************************)
Interior(S) == LET RECURSIVE Up(_, _)
                   Up(cur, acc) ==
                     LET ps == {Parent(q) : q \in {c \in cur : c[2] > 0}}
                         new == ps \ acc
                     IN IF new = {} THEN acc ELSE Up(new, acc \cup new)
               IN Up(S, {})

\* leaves of the tree structure whose refined nodes are I, on nt trees
LeavesOf(I, nt) ==
  {RootQ(t) : t \in {u \in 0..(nt - 1) : RootQ(u) \notin I}}
  \cup UNION {{c \in Children(p) : c \notin I} : p \in I}

\* the element of the leaf set S that contains (or equals) q; {} if refined
LeafOver(S, q) == {p \in {Anc(q, k) : k \in 0..q[2]} : p \in S}
=============================================================================
