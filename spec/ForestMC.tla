------------------------------ MODULE ForestMC ------------------------------
(***************************************************************************)
(* The distributed forest as a closed state machine, small enough to be    *)
(* explored exhaustively.  A state is the set I of refined nodes together  *)
(* with the cuts of the global leaf sequence between NP processes.  Every  *)
(* operation changes it by the operators of Forest.tla / Adj.tla which     *)
(* trace validation holds the real code to.  What is checked here is that  *)
(* these operators have the meaning the properties ascribe to them (e.g.   *)
(* that the balance operator yields the least balanced refinement, that    *)
(* corrected cuts split no family), in every reachable state.              *)
(***************************************************************************)
EXTENDS Forest

CONSTANTS NP,       \* number of processes
          LMAX,     \* deepest level
          DOMAIN_   \* name of the connectivity

VARIABLES I, cut

(***************************************************************************)
(* Small connectivities.  Face tables as the library stores them; corner   *)
(* and edge links follow from the faces.                                   *)
(***************************************************************************)
Self(t) == [f \in 1..NF |-> t]
SelfF == [f \in 1..NF |-> f - 1]
Flip2 == [f \in 1..NF |-> (f - 1) ^^ 1]
TwoT(f, g, o) ==
  MkConn(2, <<[x \in 1..NF |-> IF x = f + 1 THEN 1 ELSE 0], [x \in 1..NF |-> IF x = g + 1 THEN 0 ELSE 1]>>,
            <<[x \in 1..NF |-> IF x = f + 1 THEN g + NF * o ELSE x - 1],
              [x \in 1..NF |-> IF x = g + 1 THEN f + NF * o ELSE x - 1]>>, {}, {})
Connect ==
  CASE DOMAIN_ = "unit"     -> MkConn(1, <<Self(0)>>, <<SelfF>>, {}, {})
    [] DOMAIN_ = "periodic" -> MkConn(1, <<Self(0)>>, <<Flip2>>, {}, {})
    [] DOMAIN_ = "two"      -> TwoT(1, 0, 0)
    [] DOMAIN_ = "rotated"  -> TwoT(1, 2, 1)
    [] DOMAIN_ = "same"     -> TwoT(1, 1, IF DIM = 2 THEN 1 ELSE 2)
CC == TLCEval(Connect)

\* every node of the complete trees down to a level
RECURSIVE NodesDown(_)
NodesDown(k) == IF k = 0 THEN {RootQ(t) : t \in 0..(CC.nt - 1)}
                ELSE NodesDown(k - 1) \cup UNION {Children(p) : p \in {q \in NodesDown(k - 1) : q[2] = k - 1}}
\* (at most to level 2: only used for the facts about the domain below)
Universe == TLCEval(NodesDown(IF LMAX < 2 THEN LMAX ELSE 2))

Seq0(J) == SetToSortSeq(LeavesOf(J, CC.nt), QLess)
Before(q, p) == q[1] < p[1] \/ (q[1] = p[1] /\ PosCmp(q, p) < 0)
\* refinement and coarsening keep the region of every process
RegionCut(L, c, L1) ==
  [i \in 1..(NP + 1) |-> IF c[i] = Len(L) THEN Len(L1)
                         ELSE Cardinality({j \in 1..Len(L1) : Before(L1[j], L[c[i] + 1])})]
Region(L, c, r) == SetOf(LocalOf(L, c, r))

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
Init == /\ I = {}
        /\ cut = UniformCut(CC.nt, NP)

Become(J) == /\ I' = J /\ cut' = RegionCut(Seq0(I), cut, Seq0(J))

Refine(S) == Become(RefineInterior(I, S))

\* families offered on some process, and removal of the accepted ones
\* (a family of accepted parents counts only for the process that made them)
Offered(acc, rec) ==
  UNION {LET S == Region(Seq0(I), cut, r)
         IN CoarsenOffered(I, S, {p \in acc : \E q \in S : IsAnc(p, q)}, rec) : r \in 0..(NP - 1)}
Coarsen(acc) == /\ acc \subseteq Offered(acc, FALSE) /\ Become(I \ acc)
\* everything that recursive coarsening can reach
RECURSIVE CoarsenAll(_)
CoarsenAll(acc) == LET o == Offered(acc, TRUE) IN IF o \subseteq acc THEN acc ELSE CoarsenAll(acc \cup o)

Balance(k) == Become(BalanceInterior(CC, I, k))

Recut(c) == I' = I /\ cut' = c

LevelWeights(L) == [i \in 1..Len(L) |-> L[i][2]]
SparseWeights(L) == [i \in 1..Len(L) |-> IF Cid(L[i]) = NC - 1 THEN 3 ELSE 0]

Next ==
  \/ \E q \in LeavesOf(I, CC.nt) : q[2] < LMAX /\ Refine({q})
  \/ Refine({q \in LeavesOf(I, CC.nt) : q[2] < LMAX})
  \/ \E p \in I : p \in Offered({}, FALSE) /\ Coarsen({p})
  \/ Become(I \ CoarsenAll({}))
  \/ \E k \in 1..DIM : Balance(k)
  \/ \E L \in {Seq0(I)} :
       \/ Recut(UniformCut(Len(L), NP))
       \/ Recut(PfcCut(L, UniformCut(Len(L), NP)))
       \/ \E w \in {LevelWeights(L), SparseWeights(L)} :
            SumSeq(w) > 0 /\ (Recut(WeightCut(w, 1, NP)) \/ Recut(PfcCut(L, WeightCut(w, 1, NP))))
       \* any prescribed cuts are reached by moving one at a time
       \/ \E i \in 2..NP : cut[i] < cut[i + 1] /\ Recut([cut EXCEPT ![i] = @ + 1])
       \/ \E i \in 2..NP : cut[i] > cut[i - 1] /\ Recut([cut EXCEPT ![i] = @ - 1])

Spec == Init /\ [][Next]_<<I, cut>>

(***************************************************************************)
(* Invariants                                                              *)
(***************************************************************************)
Closed(J) == \A p \in J : WellFormed(p, CC.nt) /\ p[2] < LMAX /\ (p[2] = 0 \/ Parent(p) \in J)

\* C01
InvTiling ==
  /\ Closed(I)
  /\ \E L \in {Seq0(I)} : Tiling(L, CC.nt) /\ Interior(SetOf(L)) = I
       /\ Len(L) = CC.nt + (NC - 1) * Cardinality(I)
       /\ Len(cut) = NP + 1 /\ cut[1] = 0 /\ cut[NP + 1] = Len(L)
       /\ \A i \in 1..NP : cut[i] <= cut[i + 1]

\* C02 / C03: refinement of everything below a bound is undone by coarsening
\* when no family is divided
InvInverse ==
  \E L \in {Seq0(I)} :
  LET S == {q \in SetOf(L) : q[2] < LMAX}
      J == RefineInterior(I, S)
      L1 == Seq0(J)
      c1 == RegionCut(L, cut, L1)
      off == UNION {CoarsenOffered(J, Region(L1, c1, r), {}, FALSE) : r \in 0..(NP - 1)}
  IN S \subseteq off /\ J \ S = I

\* C04: contained, closed, two-to-one, idempotent, growing with the kind, least
Supersets(J, B) == {J \cup X : X \in SUBSET (B \ J)}
InvBalance ==
  \A k \in 1..DIM :
    LET B == BalanceInterior(CC, I, k) IN
    /\ I \subseteq B /\ Closed(B) /\ Balanced(CC, B, k)
    /\ BalanceInterior(CC, B, k) = B
    /\ (k < DIM => B \subseteq BalanceInterior(CC, I, k + 1))
    /\ Balanced(CC, I, k) => B = I
    /\ Cardinality(B \ I) <= 8 =>
         \A J \in Supersets(I, B) : (Closed(J) /\ Balanced(CC, J, k)) => J = B
\* two-to-one said of leaves: adjacent leaves differ by at most one level
InvTwoToOne ==
  \A k \in 1..DIM :
    LET S == LeavesOf(I, CC.nt) IN
    Balanced(CC, I, k) <=> \A x \in AdjPairs(CC, S, k) : x[1][2] - x[2][2] <= 1

\* C05: every process receives its share to within one leaf / one weight
InvUniform ==
  \E L \in {Seq0(I)} :
    LET c == UniformCut(Len(L), NP) IN
    \A i, j \in 1..NP : (c[i + 1] - c[i]) - (c[j + 1] - c[j]) \in {-1, 0, 1}
InvWeights ==
  \E L \in {Seq0(I)} :
    \A w \in {LevelWeights(L), SparseWeights(L), [i \in 1..Len(L) |-> 1]} :
      LET c == WeightCut(w, 1, NP)
          W == PrefixSums(w)
          T == W[Len(W)]
          mx == CHOOSE m \in SetOf(w) : \A x \in SetOf(w) : x <= m
      IN T > 0 =>
         /\ c[1] = 0 /\ c[NP + 1] = Len(L) /\ \A i \in 1..NP : c[i] <= c[i + 1]
         /\ \A i \in 1..NP : LET d == NP * W[c[i] + 1] - T * (i - 1) IN d > 0 - NP /\ d < NP * mx + 1
         \* a process holds no more than its share and one further leaf
         /\ \A i \in 1..NP : NP * (W[c[i + 1] + 1] - W[c[i] + 1]) <= T + NP * mx
InvShipped ==
  \E L \in {Seq0(I)} : \A c \in {UniformCut(Len(L), NP), PfcCut(L, cut)} :
    /\ Shipped(cut, c) = Shipped(c, cut)
    /\ (Shipped(cut, c) = 0) <=> (\A r \in 0..(NP - 1) : Region(L, cut, r) = Region(L, c, r))
    /\ Shipped(cut, c) = Cardinality({i \in 0..(Len(L) - 1) : OwnerOf(cut, i) # OwnerOf(c, i)})

\* C06: the correction divides no family, moves a cut by less than a family,
\* keeps the order, is idempotent, and changes only cuts inside families
InvPfc ==
  \E L \in {Seq0(I)} : \A base \in {cut, UniformCut(Len(L), NP)} :
    LET c == PfcCut(L, base)
        F == FamilySpans(L) IN
    /\ c[1] = 0 /\ c[NP + 1] = Len(L) /\ \A i \in 1..NP : c[i] <= c[i + 1]
    /\ \A s \in F : \A i \in 1..(NP + 1) : ~(s[1] < c[i] /\ c[i] <= s[2])
    /\ \A i \in 1..(NP + 1) : c[i] - base[i] \in (1 - NC)..(NC - 1)
    /\ \A i \in 1..(NP + 1) : (\A s \in F : ~(s[1] < base[i] /\ base[i] <= s[2])) => c[i] = base[i]
    /\ PfcCut(L, c) = c
    \* then every family can be coarsened
    /\ {p \in I : Children(p) \cap I = {}}
         = UNION {CoarsenOffered(I, Region(L, c, r), {}, FALSE) : r \in 0..(NP - 1)}

\* C09 / C16: adjacency is symmetric; ghosts and mirrors are dual
InvGhost ==
  \E L \in {Seq0(I)} : \E S \in {SetOf(L)} :
  \A k \in 1..DIM :
    \E A \in {AdjPairs(CC, S, k)} : \E Sy \in {A \cup {<<x[2], x[1]>> : x \in A}} :
    LET Own(r) == Region(L, cut, r)
        Gh(r) == {x[2] : x \in {y \in Sy : y[1] \in Own(r) /\ y[2] \notin Own(r)}}
        Mi(r, s) == {x[1] : x \in {y \in Sy : y[1] \in Own(r) /\ y[2] \in Own(s)}}
    IN /\ \A x \in A : x[1][2] >= x[2][2]
       /\ \A r \in 0..(NP - 1) : \A s \in (0..(NP - 1)) \ {r} :
            Gh(r) \cap Own(s) = Mi(s, r)
       /\ \A x \in A : k < DIM => x \in AdjPairs(CC, S, k + 1)

(***************************************************************************)
(* Facts about the glued domain, independent of the state                  *)
(***************************************************************************)
ASSUME FaceInvolution(CC)
ASSUME \A q \in Universe : \A k \in 1..DIM :
         \A n \in NbrsK(CC, q, k) : n[2] = q[2] /\ q \in NbrsK(CC, n, k)
\* neighbours of a child lie in the node or in its neighbours
ASSUME \A q \in {x \in Universe : x[2] > 0} : \A k \in 1..DIM :
         \A n \in NbrsK(CC, q, k) : Parent(n) \in NbrsK(CC, Parent(q), k) \cup {Parent(q)}
ASSUME \A q \in {x \in Universe : x[2] > 0} : Children(Parent(q)) = {Sibling(q, i) : i \in Cids}
=============================================================================
