------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* The distributed forest as a state machine on abstract state:            *)
(*   leaves     the global sequence of leaves in curve order               *)
(*   cut        cut[r+1] .. cut[r+2]-1 are the (0-based) numbers of the    *)
(*              leaves owned by process r                                  *)
(* Operations are defined declaratively on the set I of refined nodes      *)
(* (interior nodes), from which the leaf set is LeavesOf(I, nt).           *)
(***************************************************************************)
EXTENDS Adj, SequencesExt

Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
PrefixSums(s) == FoldLeft(LAMBDA a, b : Append(a, a[Len(a)] + b), <<0>>, s)

\* the leaves of process r (0-based) given all leaves and cuts
LocalOf(L, cut, r) == SubSeq(L, cut[r + 1] + 1, cut[r + 2])
\* owner of the leaf with 0-based number i: last r with cut[r] <= i
OwnerOf(cut, i) == CHOOSE r \in 0..(Len(cut) - 2) : cut[r + 1] <= i /\ i < cut[r + 2]

(***************************************************************************)
(* Refinement.  split is the set of nodes for which the decision was yes   *)
(* and whose level is below the bound.                                     *)
(***************************************************************************)
RefineInterior(I, split) == I \cup split
\* what must be asked: every leaf below the bound, and recursively children
RefineMustAsk(S, split, rec, maxl) ==
  {q \in S : q[2] < maxl}
  \cup (IF rec THEN {c \in UNION {Children(p) : p \in split} : c[2] < maxl} ELSE {})
RefineMayAsk(S, split, rec) ==
  S \cup (IF rec THEN UNION {Children(p) : p \in split} ELSE {})

(***************************************************************************)
(* Coarsening of the leaves S of one process, acc the accepted parents.    *)
(* A family is offered iff all its members are leaves of the process, or   *)
(* (recursively) were created by accepted coarsenings.                     *)
(***************************************************************************)
CoarsenOffered(I, S, acc, rec) ==
  {p \in I : \A c \in Children(p) : c \in S \/ (rec /\ c \in acc)}

(***************************************************************************)
(* Partition cuts.                                                         *)
(***************************************************************************)
UniformCut(N, P) == [i \in 1..(P + 1) |-> ((N * (i - 1)) \div P)]
\* cumulative weights W[1]=0, .., W[N+1]; real weights are w * scale.
\* process r starts at the first position whose cumulative weight reaches
\* floor(total * r / P)
WeightCut(w, scale, P) ==
  LET W == PrefixSums(w)
      T == W[Len(W)]
      thr(r) == LET A == T * r   rem == (A % P)
                IN (A \div P) + (IF ((rem * scale) \div P) > 0 THEN 1 ELSE 0)
      first(x) == CHOOSE k \in 1..Len(W) : W[k] >= x /\ (k = 1 \/ W[k - 1] < x)
  IN [i \in 1..(P + 1) |-> IF i = P + 1 THEN Len(w) ELSE first(thr(i - 1)) - 1]

\* complete families of leaves: first and last position (0-based) of each
FamilySpans(L) ==
  {<<i - 1, i + NC - 2>> : i \in {j \in 1..(Len(L) - NC + 1) :
      /\ L[j][2] > 0 /\ Cid(L[j]) = 0
      /\ \A k \in 1..(NC - 1) : L[j + k][1] = L[j][1] /\ L[j + k][2] = L[j][2]
                                 /\ L[j + k] = Sibling(L[j], k)}}

\* correction of cut c that falls inside the family span: the process owning
\* most members (lowest rank on ties) receives the whole family
PfcCut(L, cut) ==
  LET P == Len(cut) - 1
      spans == FamilySpans(L)
      share(s, r) == LET a == IF cut[r + 1] > s[1] THEN cut[r + 1] ELSE s[1]
                         b == IF cut[r + 2] < s[2] + 1 THEN cut[r + 2] ELSE s[2] + 1
                     IN IF b > a THEN b - a ELSE 0
      winner(s) == CHOOSE r \in 0..(P - 1) :
                     \A x \in 0..(P - 1) : share(s, x) < share(s, r)
                                           \/ (share(s, x) = share(s, r) /\ r <= x)
  IN [i \in 1..(P + 1) |->
        LET in == {s \in spans : s[1] < cut[i] /\ cut[i] <= s[2]} IN
        IF in = {} THEN cut[i]
        ELSE LET s == CHOOSE x \in in : TRUE
             IN IF winner(s) < i - 1 THEN s[2] + 1 ELSE s[1]]

\* number of leaves that change owner
Shipped(old, new) ==
  LET P == Len(old) - 1
      kept(r) == LET a == IF old[r] > new[r] THEN old[r] ELSE new[r]
                     b == IF old[r + 1] < new[r + 1] THEN old[r + 1] ELSE new[r + 1]
                 IN IF b > a THEN b - a ELSE 0
  IN old[P + 1] - SumSeq([r \in 1..P |-> kept(r)])

(***************************************************************************)
(* A forest covering exactly the uniform partition with coarsest leaves:   *)
(* process r owns the uniform level-l positions [first, last].             *)
(***************************************************************************)
\* level chosen by the constructor
NewLevel(nt, P, minq, minl) ==
  LET need == (P * minq + (nt - 1)) \div nt
      RECURSIVE Lev(_, _)
      Lev(l, n) == IF n >= need THEN l ELSE Lev(l + 1, n * NC)
      l0 == Lev(0, 1)
  IN IF l0 < minl THEN minl ELSE l0
=============================================================================
