------------------------------ MODULE TraceBits -----------------------------
(***************************************************************************)
(* C22: the algebra of quadrants.  Every recorded call has to agree with   *)
(* the geometry of the octree: a call is <<name, quadrants in, numbers in, *)
(* quadrants out, numbers out>>.  Quadrants may be extended, that is lie   *)
(* in one of the 3^d root cubes around the unit tree.                      *)
(***************************************************************************)
EXTENDS TraceBuild

B(x) == IF x THEN 1 ELSE 0
\* coordinates read as unsigned 32 bit numbers: upper two and lower 30 bits
UHi(x) == IF x < 0 THEN 3 ELSE x \div ROOT
ULo(x) == x % ROOT
ULow(q) == MkQ(q[1], q[2], LAMBDA a : ULo(q[2 + a]))
UHigh(q) == MkQ(q[1], q[2], LAMBDA a : UHi(q[2 + a]))
UPosCmp(p, q) == LET c == PosCmp(UHigh(p), UHigh(q))
                 IN IF c # 0 THEN c ELSE PosCmp(ULow(p), ULow(q))
UCmp(p, q) == LET c == UPosCmp(p, q)
              IN IF c # 0 THEN c ELSE IF p[2] < q[2] THEN -1 ELSE IF p[2] > q[2] THEN 1 ELSE 0
SameCo(p, q) == \A a \in Axes : p[2 + a] = q[2 + a]
SameQ(p, q) == p[2] = q[2] /\ SameCo(p, q)
AncEq(a, b) == a[2] <= b[2] /\ SameQ(Anc(b, a[2]), a)

OutsideAxes(q) == {a \in Axes : q[2 + a] < 0 \/ q[2 + a] >= ROOT}
LevelOk(q, top) == q[2] >= 0 /\ q[2] <= top
AlignedQ(q) == \A a \in Axes : q[2 + a] % Hl(q[2]) = 0
IsValid(q) == LevelOk(q, QMAXL) /\ AlignedQ(q) /\ OutsideAxes(q) = {}
IsExtended(q) == LevelOk(q, QMAXL) /\ AlignedQ(q) /\ \A a \in Axes : q[2 + a] >= 0 - ROOT
OnTree(q) == \A a \in Axes : q[2 + a] >= 0 /\ q[2 + a] <= ROOT
NodeOk(q, in) == q[2] = MAXL /\ \A a \in Axes :
   /\ q[2 + a] >= 0 /\ q[2 + a] <= ROOT - in
   /\ (q[2 + a] % 2 = 0 \/ (in = 1 /\ q[2 + a] = ROOT - 1))

\* box moved by d(a) in units of its own size
Moved(q, d(_)) == MkQ(q[1], q[2], LAMBDA a : q[2 + a] + d(a) * H(q))
AcrossF(q, f) == Moved(q, LAMBDA a : IF a = FAxis(f) THEN 2 * FSide(f) - 1 ELSE 0)
AcrossC(q, k) == Moved(q, LAMBDA a : 2 * Bit(k, a) - 1)
AcrossE(q, e) == Moved(q, LAMBDA a : IF a = EAxis(e) THEN 0 ELSE 2 * Bit(ECn[e][1], a) - 1)
Opp(f) == IF FSide(f) = 0 THEN f + 1 ELSE f - 1
Pt(q, c(_)) == MkQ(0, MAXL, c)
Mid(q, a) == q[2 + a] + H(q) \div 2
NoQuad == MkQ(0, 0 - 1, LAMBDA a : 0 - 1)

\* corner of q's range
CornerDesc(q, k, l2) == MkQ(q[1], l2, LAMBDA a : q[2 + a] + Bit(k, a) * (H(q) - Hl(l2)))
\* the smallest level from lo on at which the ancestor has the first/last corner of q
EnlFirst(q, lo) == LET ks == {k \in lo..q[2] : SameCo(Anc(q, k), q)}
                   IN Anc(q, CHOOSE k \in ks : \A j \in ks : k <= j)
SameEnd(p, q) == \A a \in Axes : q[2 + a] - p[2 + a] = H(p) - H(q)
EnlLast(q, lo) == LET ks == {k \in lo..q[2] : SameEnd(Anc(q, k), q)}
                  IN Anc(q, CHOOSE k \in ks : \A j \in ks : k <= j)

RECURSIVE PrevBefore(_)
PrevBefore(q) == IF q[2] = 0 THEN <<>>
                 ELSE LET i == Cid(q) IN IF i > 0 THEN Child(Parent(q), i - 1) ELSE PrevBefore(Parent(q))

NcaLevel(p, q) == LET m == IF p[2] < q[2] THEN p[2] ELSE q[2]
                      ks == {k \in 0..m : SameCo(Anc(p, k), Anc(q, k))}
                  IN CHOOSE k \in ks : \A j \in ks : j <= k

\* moving towards a side of the tree one size at a time: d[a] in {0,-1,1}
\* is the movement, bb[a] the child bit taken on the way (2: its own), and
\* sd[a] the sought side of the tree (2: any)
ClampIn(q, sd, all) == MkQ(q[1], q[2], LAMBDA a :
   IF ~all /\ sd[a] = 2 THEN q[2 + a]
   ELSE IF q[2 + a] < 0 THEN 0 ELSE IF q[2 + a] >= ROOT THEN ROOT - H(q) ELSE q[2 + a])
TakeBits(q, bb) ==
  LET p == Parent(q) IN MkQ(q[1], q[2], LAMBDA a :
     IF bb[a] = 2 THEN q[2 + a] ELSE p[2 + a] + bb[a] * H(q))
ReachedSide(r, sd) == \A a \in Axes :
   sd[a] = 2 \/ IF sd[a] = 0 THEN r[2 + a] <= 0 ELSE r[2 + a] >= ROOT - H(r)
StepUp(q, d) == LET p == Parent(q) IN MkQ(p[1], p[2], LAMBDA a : p[2 + a] + d[a] * H(p))
RECURSIVE ShiftSteps(_, _, _), ShiftBy(_, _, _)
ShiftSteps(q, d, sd) == IF ReachedSide(TakeBits(q, sd), sd) THEN 0 ELSE 1 + ShiftSteps(StepUp(q, d), d, sd)
ShiftBy(q, i, d) == IF i = 0 THEN q ELSE ShiftBy(StepUp(q, d), i - 1, d)
ShiftCorner(q, k) ==
  LET sd == [a \in Axes |-> Bit(k, a)]
      d == [a \in Axes |-> 2 * sd[a] - 1]
  IN ClampIn(TakeBits(ShiftBy(q, ShiftSteps(q, d, sd), d), sd), sd, TRUE)
ShiftEdge(q, e, t) ==         \* t: 0 laterally, 1 up, -1 down the edge
  LET x == EAxis(e)
      sd == [a \in Axes |-> IF a = x THEN 2 ELSE Bit(ECn[e][1], a)]
      d0 == [a \in Axes |-> IF a = x THEN 0 ELSE 2 * sd[a] - 1]
      d == [d0 EXCEPT ![x] = t]
      bb == [sd EXCEPT ![x] = IF t = 0 THEN 2 ELSE IF t = 1 THEN 0 ELSE 1]
      \* the lateral movement decides how far to go; it keeps its own bit
  IN ClampIn(TakeBits(ShiftBy(q, ShiftSteps(q, d0, sd), d), bb), sd, t # 0)

TouchLow(q, in) == IF q[2] = MAXL \/ in = 1 THEN 0 ELSE 0 - H(q)
TouchHigh(q, in) == IF q[2] = MAXL THEN ROOT - in ELSE IF in = 1 THEN ROOT - H(q) ELSE ROOT
TouchAt(q, a, s, in) == q[2 + a] = IF s = 0 THEN TouchLow(q, in) ELSE TouchHigh(q, in)

LinDigits(q, lv) == [i \in 1..lv |-> IF i <= q[2] THEN CidAt(q, i) ELSE 0]

\* numbers as sequences of bytes, lowest first
DBit(u, j) == IF j < 0 \/ j >= 8 * Len(u) THEN 0 ELSE (u[j \div 8 + 1] \div Pow2[j % 8]) % 2
FromBits(n, bit(_)) == [i \in 1..n |-> FoldLeft(LAMBDA s, k : s + Pow2[k] * bit(8 * (i - 1) + k), 0, <<0,1,2,3,4,5,6,7>>)]
DAdd(u, v, c0) ==
  LET RECURSIVE Go(_, _, _)
      Go(i, c, acc) == IF i > Len(u) THEN acc
                       ELSE LET x == u[i] + v[i] + c IN Go(i + 1, x \div 256, Append(acc, x % 256))
  IN Go(1, c0, <<>>)
DNeg(u) == [i \in 1..Len(u) |-> 255 - u[i]]
DSub(u, v) == DAdd(u, DNeg(v), 1)
DCmp(u, v) == LET ds == {i \in 1..Len(u) : u[i] # v[i]}
              IN IF ds = {} THEN 0
                 ELSE LET m == CHOOSE i \in ds : \A j \in ds : j <= i IN IF u[m] < v[m] THEN -1 ELSE 1

FromTree(q) == [q EXCEPT ![1] = 0]
ClampNode(q) == MkQ(q[1], MAXL, LAMBDA a : IF q[2 + a] = ROOT THEN ROOT - 1 ELSE q[2 + a])

CallOk(c) ==
  LET nm == c[1]
      q == c[2]
      n == c[3]
      o == c[4]
      r == c[5]
  IN
  CASE nm = "equal" -> r = <<B(SameQ(q[1], q[2])), B(SameQ(q[1], q[2]))>>
    [] nm = "compare" -> LET x == UCmp(q[1], q[2]) IN r = <<x, 0 - x, x>>
    [] nm = "piggy" -> r = <<IF q[1][1] # q[2][1] THEN (IF q[1][1] < q[2][1] THEN -1 ELSE 1)
                             ELSE UCmp(q[1], q[2]), B(q[1] = q[2])>>
    [] nm = "coordcmp" -> r = <<UPosCmp(q[1], q[2])>>
    [] nm = "localnum" -> r = <<IF n[1] < n[2] THEN -1 ELSE IF n[1] > n[2] THEN 1 ELSE 0>>
    [] nm = "disjoint" -> LET ov == AncEq(q[1], q[2]) \/ AncEq(q[2], q[1])
                          IN r = <<IF ov THEN 0 ELSE UCmp(q[1], q[2]), B(ov), B(ov)>>
    [] nm = "hash" -> r = <<1, 1>>
    [] nm = "childid" -> r = <<CidAt(q[1], q[1][2]), CidAt(q[1], n[1])>>
    [] nm = "position" ->
         LET out == OutsideAxes(q[1])
             k == Cardinality(out)
             base == <<B(k = 0), B(\A a \in Axes : q[1][2 + a] >= 0 - ROOT), B(k = 1), B(k = DIM)>>
         IN IF DIM = 2 THEN r = base
            ELSE /\ SubSeq(r, 1, 4) = base /\ r[5] = B(k = 2) /\ r[6] = r[5]
                 /\ IF k # 2 THEN r[7] = -1
                    ELSE /\ EAxis(r[7]) \notin out
                         /\ \A a \in out : Bit(ECn[r[7]][1], a) = B(q[1][2 + a] >= ROOT)
    [] nm = "node" -> r = <<B(NodeOk(q[1], 0)), B(NodeOk(q[1], 1)), B(OnTree(q[1]))>>
    [] nm = "valid" -> r = <<B(IsValid(q[1])), B(IsExtended(q[1])),
                             B(n[1] >= 0 /\ n[1] <= MAXL /\ OnTree(q[1])
                               /\ \A a \in Axes : q[1][2 + a] % Hl(n[1]) = 0)>>
    [] nm = "sibling2" -> LET x == B(q[1][2] = q[2][2] /\ q[1][2] > 0 /\ ~SameCo(q[1], q[2])
                                     /\ SameQ(Parent(q[1]), Parent(q[2]))) IN r = <<x, x>>
    [] nm = "family" -> LET x == B(q[1][2] > 0 /\ q = [i \in 1..NC |-> Child(Parent(q[1]), i - 1)])
                        IN r = <<x, x, x>>
    [] nm = "related" ->
         LET par(a, b) == B(b[2] = a[2] + 1 /\ AncEq(a, b))
             anc(a, b) == B(a[2] < b[2] /\ AncEq(a, b))
         IN r = <<par(q[1], q[2]), par(q[1], q[2]), anc(q[1], q[2]), anc(q[1], q[2]),
                  par(q[2], q[1]), anc(q[2], q[1])>>
    [] nm = "next" -> LET nx == NextAfter(q[1])
                          x == B(nx # <<>> /\ StartsIn(nx, q[2])) IN r = <<x, x>>
    [] nm = "intree" ->
         IF n[1] = 0 THEN r = <<0, 0, 0>>
         ELSE LET rg == <<q[1], q[2]>>
                  in == B(InRange(q[3], rg))
              IN r = <<B(PosCmp(LastDesc(q[3], QMAXL), q[1]) >= 0 /\ PosCmp(FirstDesc(q[3], QMAXL), q[2]) <= 0),
                       in, in>>
    [] nm = "firstlast" -> /\ r = <<B(SameCo(q[1], q[3]) /\ SameEnd(q[3], q[2]))>>
                           /\ o = <<EnlFirst(q[1], q[3][2]), EnlLast(q[2], q[3][2])>>
    [] nm = "root" -> o = <<RootQ(0)>>
    [] nm = "ancestor" -> o = <<Anc(q[1], n[1]), Parent(q[1])>>
    [] nm = "sibling" -> o = <<Child(Parent(q[1]), n[1])>>
    [] nm = "children" -> o = [i \in 1..NC |-> Child(q[1], i - 1)]
    [] nm = "faceneigh" -> o = <<AcrossF(q[1], n[1])>>
    [] nm = "halfface" ->
         LET nb == AcrossF(q[1], n[1])
             hs == [i \in 1..NFC |-> Child(nb, FCn[Opp(n[1])][i])]
         IN o = hs \o [i \in 1..NFC |-> LastDesc(hs[i], QMAXL)]
    [] nm = "allface" ->
         LET nb == AcrossF(q[1], n[1])
         IN o = [i \in 1..NFC |-> IF q[1][2] = QMAXL THEN NoQuad ELSE Child(nb, FCn[Opp(n[1])][i])]
                \o <<nb, IF q[1][2] > 0 /\ Bit(Cid(q[1]), FAxis(n[1])) = FSide(n[1])
                         THEN AcrossF(Parent(q[1]), n[1]) ELSE NoQuad>>
    [] nm = "cornerneigh" ->
         LET p == Pt(q[1], LAMBDA a : q[1][2 + a] + Bit(n[1], a) * H(q[1]))
         IN o = <<AcrossC(q[1], n[1]), p, p>>
    [] nm = "halfcorner" -> o = <<Child(AcrossC(q[1], n[1]), NC - 1 - n[1])>>
    [] nm = "midpoints" ->
         LET m(a) == Mid(q[1], a)
             f(a) == IF a = FAxis(n[1]) THEN q[1][2 + a] + FSide(n[1]) * H(q[1]) ELSE Mid(q[1], a)
         IN o = <<Pt(q[1], m), Pt(q[1], f)>>
    [] nm = "edge" ->
         LET m(a) == IF a = EAxis(n[1]) THEN Mid(q[1], a) ELSE q[1][2 + a] + Bit(ECn[n[1]][1], a) * H(q[1])
         IN o = <<AcrossE(q[1], n[1]), Pt(q[1], m)>>
    [] nm = "descendants" -> o = <<FirstDesc(q[1], n[1]), LastDesc(q[1], n[1]), CornerDesc(q[1], n[2], n[1])>>
    [] nm = "nca" -> LET x == Anc(q[1], NcaLevel(q[1], q[2])) IN o = <<x, x>>
    [] nm = "touchcorner" -> r = <<B(\A a \in Axes : TouchAt(q[1], a, Bit(n[1], a), n[2]))>>
    [] nm = "touchedge" -> r = <<B(\A a \in Axes \ {EAxis(n[1])} : TouchAt(q[1], a, Bit(ECn[n[1]][1], a), n[2]))>>
    [] nm = "shiftcorner" -> o = <<ShiftCorner(q[1], n[1])>>
    [] nm = "shiftedge" -> o = <<ShiftEdge(q[1], n[1], 0)>>
                               \o (IF n[2] = 1 THEN <<ShiftEdge(q[1], n[1], 1)>> ELSE <<>>)
                               \o (IF n[3] = 1 THEN <<ShiftEdge(q[1], n[1], 0 - 1)>> ELSE <<>>)
    [] nm = "atcorner" ->
         LET m(a) == IF Bit(n[1], a) = 0 THEN TouchLow(q[1], n[2]) ELSE TouchHigh(q[1], n[2])
             p(a) == Bit(n[1], a) * ROOT
         IN o = <<MkQ(0, q[1][2], m), Pt(q[1], p)>>
    [] nm = "linear" ->
         LET cell == IF n[1] <= q[1][2] THEN Anc(q[1], n[1]) ELSE FirstDesc(q[1], n[1])
         IN /\ r = LinDigits(q[1], n[1]) \o <<0>> \o (IF n[1] <= n[2] THEN <<1>> ELSE <<>>)
            /\ o = <<cell>> \o (IF n[1] <= n[2] THEN <<cell>> ELSE <<>>)
    [] nm = "successor" ->
         LET nx == NextAfter(q[1])
             pv == PrevBefore(q[1])
         IN o = (IF nx = <<>> THEN <<>> ELSE <<FirstDesc(nx, q[1][2])>>)
                \o (IF pv = <<>> THEN <<>> ELSE <<LastDesc(pv, q[1][2])>>)
    [] nm = "ancface" ->
         LET at(a, s) == q[1][2 + a] + s * H(q[1]) = q[2][2 + a] + s * H(q[2])
         IN r = <<B(at(FAxis(n[1]), FSide(n[1]))), B(\A a \in Axes : at(a, Bit(n[2], a)))>>
    [] nm = "clamp" ->
         LET cl == ClampNode(q[1]) IN
         /\ o = <<cl, MkQ(0, n[1], LAMBDA a : cl[2 + a] - (cl[2 + a] % Hl(n[1]))), q[1]>>
         /\ r = <<B(\A a \in Axes : q[2][2 + a] <= cl[2 + a] /\ cl[2 + a] - q[2][2 + a] < H(q[2])),
                  B(q[3][1] = q[4][1] /\ SameCo(q[3], q[4])), 1, 1>>
    [] nm = "treeis" ->
         LET m == Len(q) - 1
             so == \A i \in 1..m : QCmp(q[i], q[i + 1]) < 0
             li == so /\ \A i \in 1..m : ~Overlap(q[i], q[i + 1])
             cm == so /\ \A i \in 1..m : NextAfter(q[i]) # <<>> /\ StartsIn(NextAfter(q[i]), q[i + 1])
         IN r = <<B(so), B(li), B(cm)>>
    [] nm = "lid" ->
         LET u == q[1]
             v == q[2]
             w == Len(u)
             one == [i \in 1..w |-> IF i = 1 THEN 1 ELSE 0]
             ob(j) == IF DBit(u, j) + DBit(v, j) > 0 THEN 1 ELSE 0
             ab(j) == IF DBit(u, j) + DBit(v, j) = 2 THEN 1 ELSE 0
             rb(j) == DBit(u, j + n[2])
             lb(j) == DBit(u, j - n[2])
             sb(j) == IF j = n[1] THEN 1 ELSE DBit(u, j)
         IN /\ r = <<DCmp(u, v), B(u = v), DBit(u, n[1])>>
            /\ o = <<DAdd(u, v, 0), DSub(u, v), DNeg(u), FromBits(w, ob), FromBits(w, ab),
                     FromBits(w, rb), FromBits(w, lb), FromBits(w, sb),
                     DAdd(u, v, 0), DSub(u, v), FromBits(w, ob), FromBits(w, ab),
                     [i \in 1..w |-> 0], one>>
    [] OTHER -> FALSE

DoQalg(e) ==
  /\ Step /\ UNCHANGED <<cs, fs, dead, aux>>
  /\ \A i \in 1..Len(e.calls) : Clause(e, "C22", e.calls[i][1], CallOk(e.calls[i]))
  /\ Clause(e, "C22", "user-data", e.kept = 1)

BitKinds == {"qalg"}
BitOp(e) == CASE e.k = "qalg" -> DoQalg(e)
=============================================================================
