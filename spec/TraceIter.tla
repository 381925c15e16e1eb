------------------------------ MODULE TraceIter -----------------------------
(***************************************************************************)
(* Iteration (C11).                                                        *)
(***************************************************************************)
EXTENDS TraceGhost, Inc

\* leaf-level members <<leaf, face>> of the face entity {<<V,f>>}
FaceMembers(S, I, v) == IF v[1] \in S THEN <<v[1]>>
                        ELSE [i \in 1..NFC |-> Child(v[1], FCn[v[2]][i])]
EdgeMembers(S, I, v) == IF v[1] \in S THEN <<v[1]>>
                        ELSE <<Child(v[1], ECn[v[2]][1]), Child(v[1], ECn[v[2]][2])>>
\* entity valid: every quadrant around it is a leaf or refined, one is a leaf
Valid(S, I, E) == (\A v \in E : v[1] \in S \/ v[1] \in I) /\ \E v \in E : v[1] \in S

FaceEnts(c, S, I) ==
  {E \in UNION {{FaceInc(c, q, f) : f \in 0..(NF - 1)} : q \in S} : Valid(S, I, E)}
EdgeEnts(c, S, I) ==
  {E \in UNION {{EdgeInc(c, q, e) : e \in 0..(NE - 1)} : q \in S} : Valid(S, I, E)}
\* a corner entity: set of smallest cells, all in a leaf with the same corner
CellLeaf(S, x) == CHOOSE m \in LeafOver(S, x[1]) : TRUE
CornerValid(S, E) == \A x \in E : CornerCell(CellLeaf(S, x), x[2]) = x[1]
CornerEnts(c, S) ==
  {E \in UNION {{PointKey(c, q, k) : k \in Cids} : q \in S} : CornerValid(S, E)}
CornerMembers(S, E) == {<<CellLeaf(S, x), x[2]>> : x \in E}

(***************************************************************************)
(* What one process reports.  pos: global position of a leaf; the sides    *)
(* are <<tree, number, hanging, list of <<ghost?, quadrant, number>>>>.    *)
(***************************************************************************)
RefOf(o, pos, r, gpos, q) ==
  LET p == pos[q] IN
  IF o.cut[r] < p /\ p <= o.cut[r + 1]
  THEN <<0, q, (p - 1) - (CHOOSE s \in {i \in o.cut[r]..(p - 1) :
                            o.L[i + 1][1] = q[1] /\ (i = o.cut[r] \/ o.L[i][1] # q[1])} : TRUE)>>
  ELSE IF q \in DOMAIN gpos THEN <<1, q, gpos[q] - 1>>
  ELSE <<1, <<>>, -1>>

LowestFirst(sides) ==
  \* sides[0] holds the lowest quadrant that is known
  LET firsts == [i \in 1..Len(sides) |-> sides[i][4][1][2]]
  IN \A i \in 2..Len(sides) : firsts[1] = <<>> \/ firsts[i] = <<>> \/ QCmp(firsts[1], firsts[i]) <= 0

Tbd(n) == IF n = 0 THEN 0 ELSE 10 * DIM + n

\* the entity an event speaks about, from a known quadrant in it
KnownSide(ev) == CHOOSE i \in 1..Len(ev) : \E j \in 1..Len(ev[i][4]) : ev[i][4][j][2] # <<>>
KnownQuad(s) == s[4][CHOOSE j \in 1..Len(s[4]) : s[4][j][2] # <<>>][2]
HasKnown(ev) == \E i \in 1..Len(ev) : \E j \in 1..Len(ev[i][4]) : ev[i][4][j][2] # <<>>

IterOk(o, c, S, I, pos, FE, EE, CE, R, r, gq, mask, rem, K) ==
  LET ref == [q \in S |-> RefOf(o, pos, r, gq, q)]
      loc(q) == o.cut[r] < pos[q] /\ pos[q] <= o.cut[r + 1]
      evs == R.cb
      N == Len(evs)
      has(b) == ((mask \div b) % 2) = 1
      \* K: the ghost layer knows neighbours across entities of codimension up
      \* to K.  Where it cannot tell what is on the other side, only events that
      \* involve local and ghost leaves exclusively are determined.
      part(k) == K < (CASE k = "f" -> 1 [] k = "e" -> 2 [] k = "c" -> DIM - 1)
      full(sides) == \A s \in SetOf(sides) : \A m \in SetOf(s[4]) : m[2] # <<>>
      \* the same for remote entities, which no local leaf touches
      lk(k, X) == (~part(k) /\ (k # "f" => \E q \in X : loc(q)))
                  \/ \A q \in X : loc(q) \/ q \in DOMAIN gq
      anyloc(sides) == \E s \in SetOf(sides) : \E m \in SetOf(s[4]) : m[1] = 0
      ofk(k) == {i \in 1..N : /\ evs[i][1] = k
                   /\ \/ ~part(k) /\ (k # "f" => anyloc(evs[i][Len(evs[i])]))
                      \/ full(evs[i][Len(evs[i])])}
      \* volumes
      vs == SelectSeq(evs, LAMBDA x : x[1] = "v")
      volok == vs = IF has(1) THEN [i \in 1..(o.cut[r + 1] - o.cut[r]) |->
                        LET q == o.L[o.cut[r] + i] IN <<"v", q, ref[q][3]>>] ELSE <<>>
      \* faces
      fents == IF has(2) THEN {E \in FE :
                   /\ \E v \in E : \E q \in SetOf(FaceMembers(S, I, v)) : loc(q)
                   /\ \A v \in E : lk("f", SetOf(FaceMembers(S, I, v)))} ELSE {}
      fside(v) == LET m == FaceMembers(S, I, v) IN
                  <<v[1][1], v[2], IF v[1] \in S THEN 0 ELSE 1, [i \in 1..Len(m) |-> ref[m[i]]]>>
      ftree(E) == LET v == CHOOSE x \in E : TRUE IN OnTreeFace(v[1], v[2])
      forient(E) == LET v == CHOOSE x \in E : TRUE IN
                    IF ftree(E) /\ Cardinality(E) = 2 THEN FNb(c, v[1][1], v[2])[3] ELSE 0
      fwant == {<<forient(E), IF ftree(E) THEN Tbd(1) ELSE 0, {fside(v) : v \in E}>> : E \in fents}
      fev == ofk("f")
      faceok == /\ \A i \in fev : LET x == evs[i] IN
                     /\ Len(x[4]) = Cardinality(SetOf(x[4]))
                     /\ x[3] = 0 => LowestFirst(x[4])
                /\ {<<evs[i][2], evs[i][3], SetOf(evs[i][4])>> : i \in fev} = fwant
                /\ Cardinality(fev) = Cardinality(fents)
      \* edges
      eall == IF has(4) /\ DIM = 3 THEN EE ELSE {}
      eset(E) == UNION {SetOf(EdgeMembers(S, I, v)) : v \in E}
      \* entities of the large faces whose hanging part is local
      hangF == IF ~rem THEN {} ELSE
               {v \in UNION FE : v[1] \in S /\
                  \E w \in FaceInc(c, v[1], v[2]) : w[1] \in I /\
                     \E q \in SetOf(FaceMembers(S, I, w)) : loc(q)}
      remE(E) == rem /\ \E v \in E : v[1] \in S /\ \E w \in hangF : w[1] = v[1] /\ v[2] \in FEd[w[2]]
      eents == {E \in eall : lk("e", eset(E)) /\ ((\E q \in eset(E) : loc(q)) \/ remE(E))}
      eside(v) == LET m == EdgeMembers(S, I, v) IN
                  <<v[1][1], v[2], IF v[1] \in S THEN 0 ELSE 1, [i \in 1..Len(m) |-> ref[m[i]]]>>
      etb(E) == LET v == CHOOSE x \in E : TRUE IN Tbd(TreeFacesOf(v[1], EFaces[v[2]]))
      ewant == {<<etb(E), {eside(v) : v \in E}>> : E \in eents}
      eev == ofk("e")
      strip(ss) == {<<x[1], x[2], x[3], x[4]>> : x \in SetOf(ss)}
      flips(E) == LET v == CHOOSE x \in E : TRUE IN EdgeInc3(c, v[1], v[2])
      fl(s) == LET q == KnownQuad(s) IN IF s[3] = 0 THEN q ELSE Parent(q)
      edgeok == /\ \A i \in eev : LET x == evs[i] IN
                     /\ Len(x[3]) = Cardinality(strip(x[3]))
                     /\ x[2] = 0 => LowestFirst(x[3])
                     /\ HasKnown(x[3])
                     /\ LET k == x[3][KnownSide(x[3])]
                            F3 == EdgeInc3(c, fl(k), k[2])
                        IN \A j \in 1..Len(x[3]) :
                             (\E m \in 1..Len(x[3][j][4]) : x[3][j][4][m][2] # <<>>) =>
                                <<fl(x[3][j]), x[3][j][2], (k[5] + x[3][j][5]) % 2>> \in F3
                /\ {<<evs[i][2], strip(evs[i][3])>> : i \in eev} = ewant
                /\ Cardinality(eev) = Cardinality(eents)
      \* corners
      remC(E) == rem /\ \E m \in CornerMembers(S, E) : \E w \in hangF : w[1] = m[1] /\ m[2] \in SetOf(FCn[w[2]])
      cents == IF has(8) THEN {E \in CE :
                   /\ lk("c", {m[1] : m \in CornerMembers(S, E)})
                   /\ (\E m \in CornerMembers(S, E) : loc(m[1])) \/ remC(E)} ELSE {}
      cside(m) == <<m[1][1], m[2], 0, <<ref[m[1]]>>>>
      ctb(E) == LET x == CHOOSE y \in E : TRUE IN Tbd(TreeFacesOf(x[1], CFaces[x[2]]))
      cwant == {<<ctb(E), {cside(m) : m \in CornerMembers(S, E)}>> : E \in cents}
      cev == ofk("c")
      cornerok == /\ \A i \in cev : LET x == evs[i] IN
                       /\ Len(x[3]) = Cardinality(SetOf(x[3]))
                       /\ x[2] = 0 => LowestFirst(x[3])
                  /\ {<<evs[i][2], SetOf(evs[i][3])>> : i \in cev} = cwant
                  /\ Cardinality(cev) = Cardinality(cents)
  IN [vol |-> volok, face |-> faceok, edge |-> edgeok, corner |-> cornerok]

(***************************************************************************)
(* Order between the callbacks of one process.                             *)
(***************************************************************************)
Pairs(s) == {<<s[4][j][2], s[2]>> : j \in {k \in 1..Len(s[4]) : s[4][k][1] = 0}}
EvPairs(sides) == UNION {Pairs(sides[i]) : i \in 1..Len(sides)}
OrderOk(R, mask) ==
  LET evs == R.cb
      N == Len(evs)
      has(b) == ((mask \div b) % 2) = 1
      IdxMap(k) == LET P(i) == EvPairs(evs[i][Len(evs[i])])
                       idx == {i \in 1..N : evs[i][1] = k}
                       pr == UNION {{<<p, i>> : p \in P(i)} : i \in idx}
                   IN [p \in {x[1] : x \in pr} |-> CHOOSE i \in idx : <<p, i>> \in pr]
      vix == [q \in {evs[i][2] : i \in {j \in 1..N : evs[j][1] = "v"}} |->
                CHOOSE i \in 1..N : evs[i][1] = "v" /\ evs[i][2] = q]
      fix == IdxMap("f")
      eix == IdxMap("e")
      cix == IdxMap("c")
  IN /\ has(1) => \A p \in DOMAIN fix : p[1] \in DOMAIN vix /\ vix[p[1]] < fix[p]
     /\ has(2) => \A p \in DOMAIN eix : \A f \in EFaces[p[2]] :
                     <<p[1], f>> \in DOMAIN fix => fix[<<p[1], f>>] < eix[p]
     /\ \A p \in DOMAIN cix :
          /\ (DIM = 2 /\ has(2)) => \A f \in CFaces[p[2]] :
                <<p[1], f>> \in DOMAIN fix => fix[<<p[1], f>>] < cix[p]
          /\ has(4) => \A e \in CEdges[p[2]] :
                <<p[1], e>> \in DOMAIN eix => eix[<<p[1], e>>] < cix[p]

DoIter(e) ==
  /\ Keep(e) /\ UNCHANGED aux
  /\ Is({"C11"}) =>
     \E o \in {fs[e.s]} : \E c \in {cs[o.cs]} : \E S \in {SetOf(o.L)} : \E pos \in {PosMap(o.L)} :
     \E FE \in {FaceEnts(c, S, o.I)} :
     \E EE \in {IF (e.m \div 4) % 2 = 1 THEN EdgeEnts(c, S, o.I) ELSE {}} :
     \E CE \in {IF (e.m \div 8) % 2 = 1 THEN CornerEnts(c, S) ELSE {}} :
     \A r \in Procs(e) :
       \E g \in {IF e.g < 0 THEN <<>> ELSE aux.gh[e.g].R[r].g} :
       \E gq \in {[q \in SetOf(g) |-> CHOOSE i \in 1..Len(g) : g[i] = q]} :
       \E ok \in {IterOk(o, c, S, o.I, pos, FE, EE, CE, e.R[r], r, gq, e.m, e.rem = 1,
                  IF e.P = 1 THEN DIM ELSE IF e.g < 0 THEN 0 ELSE aux.gh[e.g].kind)} :
          /\ Clause(e, "C11", "pointers", e.R[r].bad = 0)
          /\ Clause(e, "C11", "volumes", ok.vol)
          /\ Clause(e, "C11", "faces", ok.face)
          /\ Clause(e, "C11", "edges", ok.edge)
          /\ Clause(e, "C11", "corners", ok.corner)
          /\ Clause(e, "C11", "order", OrderOk(e.R[r], e.m))

IterOp(e) == DoIter(e)
IterKinds == {"iter"}
=============================================================================
