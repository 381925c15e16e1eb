------------------------------ MODULE ForestSim -----------------------------
(***************************************************************************)
(* Behaviours of the forest state machine, written as scripts for the real *)
(* library together with the state which the specification predicts after *)
(* every step (the "expect" lines).  Run with TLC -simulate.               *)
(***************************************************************************)
EXTENDS ForestMC, Randomization

CONSTANTS STEPS,     \* operations per behaviour
          MAXLEAVES  \* size at which refinement stops

VARIABLE hist
svars == <<I, cut, hist>>

Join(ss) == FoldLeft(LAMBDA a, b : a \o " " \o b, "", ss)
QStr(q) == Join([i \in 1..Len(q) |-> ToString(q[i])])
SetStr(S) == ToString(Cardinality(S)) \o Join([i \in 1..Cardinality(S) |-> QStr(SetToSeq(S)[i])])

\* sequence of strings without leading blank
Expect(pid, J, c) ==
  LET L == Seq0(J) IN
  "expect 0 " \o pid \o Join([i \in 1..Len(c) |-> ToString(c[i])]) \o " " \o ToString(Len(L))
    \o Join([i \in 1..Len(L) |-> QStr(L[i])])

Conn0 == CASE DOMAIN_ = "unit" -> "name unit"
           [] DOMAIN_ = "periodic" -> "name periodic"
           [] DOMAIN_ = "two" -> IF DIM = 2 THEN "brick 2 1 0 0" ELSE "brick 2 1 1 0 0 0"
           [] DOMAIN_ = "rotated" -> "name twotrees 1 2 1"
           [] DOMAIN_ = "same" -> IF DIM = 2 THEN "name twotrees 1 1 1" ELSE "name twotrees 1 1 2"

SInit == Init /\ hist = <<"conn 0 " \o Conn0, "new 0 0 0 0 1 8 1">>

Log(op, pid, J, c) ==
  \E e \in {<<op, Expect(pid, J, c)>>} :
    /\ hist' = hist \o e
    /\ I' = J /\ cut' = c

To(op, pid, J) == \E c \in {RegionCut(Seq0(I), cut, Seq0(J))} : Log(op, pid, J, c)

Leaves == LeavesOf(I, CC.nt)
Some(S) == IF S = {} THEN {} ELSE RandomSubset(1 + (RandomElement(0..1000) % Cardinality(S)), S)
Few(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)

\* a set of nodes to be split recursively: some leaves, some of their children, ...
RECURSIVE Deep(_, _, _)
Deep(n, S, acc) ==
  IF n = 0 THEN acc
  ELSE LET pick == Few({q \in S : q[2] < LMAX})
       IN Deep(n - 1, UNION {Children(p) : p \in pick}, acc \cup pick)

\* what recursive coarsening accepts when it is willing to accept the set R
RECURSIVE CoarsenWilling(_, _)
CoarsenWilling(R, acc) ==
  LET o == Offered(acc, TRUE) \cap R IN IF o \subseteq acc THEN acc ELSE CoarsenWilling(R, acc \cup o)

\* the first operations refine
Grown == Cardinality(I) >= 3
Room == Cardinality(Leaves) < MAXLEAVES

SNext ==
  /\ Len(hist) < 2 * STEPS + 2
  /\ \/ /\ Room
        /\ \E S \in {Some({q \in Leaves : q[2] < LMAX})} :
             \* no more than fits
             \E T \in {IF Cardinality(S) * (NC - 1) + Cardinality(Leaves) <= MAXLEAVES THEN S ELSE Few(S)} :
               To("refine 0 0 -1 3 0 list " \o SetStr(T), "C02", RefineInterior(I, T))
     \/ /\ Room
        /\ \E S \in {Deep(RandomElement(1..4), Leaves, {})} :
             To("refine 0 1 -1 3 0 list " \o SetStr(S), "C02", RefineInterior(I, S))
     \/ /\ Room
        /\ \E m \in {RandomElement(0..LMAX)} :
           \E S \in {Deep(RandomElement(1..4), Few(Leaves), {})} :
             To("refine 0 1 " \o ToString(m) \o " 1 0 list " \o SetStr(S), "C02",
                RefineInterior(I, {q \in S : q[2] < m /\ \A k \in 0..(q[2] - 1) : Anc(q, k) \in I \/ Anc(q, k) \in S}))
     \/ \E R \in {Some(I)} : \E orph \in {RandomElement(0..1)} :
             /\ Grown
             /\ To("coarsen 0 0 " \o ToString(orph) \o " 3 list " \o SetStr(R), "C03", I \ (R \cap Offered({}, FALSE)))
     \/ \E R \in {Some(I)} : \E orph \in {RandomElement(0..1)} :
             /\ Grown
             /\ To("coarsen 0 1 " \o ToString(orph) \o " 3 list " \o SetStr(R), "C03", I \ CoarsenWilling(R, {}))
     \/ \E k \in {RandomElement({j \in 1..DIM : RegularLinks(CC, j)})} : \E J \in {BalanceInterior(CC, I, k)} :
             /\ Grown
             /\ To("balance 0 " \o ToString(k) \o " 3", "C04", J)
     \/ Grown /\ Log("partition 0 0 -1", "C05", I, UniformCut(Cardinality(Leaves), NP))
     \/ \E L \in {Seq0(I)} : Grown /\
         (\/ Log("partition 0 1 -1", "C06", I,
                 IF NP = 1 THEN cut ELSE PfcCut(L, UniformCut(Len(L), NP)))
          \/ \E w \in {LevelWeights(L)} :
             \E pfc \in {RandomElement(0..1)} :
               Log("partition 0 " \o ToString(pfc) \o " 4 1 1 1", IF pfc = 1 THEN "C06" ELSE "C05", I,
                   IF NP = 1 \/ SumSeq(w) = 0 THEN cut
                   ELSE IF pfc = 1 THEN PfcCut(L, WeightCut(w, 1, NP)) ELSE WeightCut(w, 1, NP))
          \/ \E n \in {[i \in 1..(NP - 1) |-> RandomElement(0..Len(L))]} :
             \E c \in {<<0>> \o SortSeq(n, <) \o <<Len(L)>>} :
               Log("given 0 9 0" \o Join([i \in 1..NP |-> ToString(c[i + 1] - c[i])]), "C05", I, c))

\* the complete behaviour is printed once
Done ==
  /\ Len(hist) >= 2 * STEPS + 2 /\ hist[1] # "done"
  /\ PrintT("SCRIPT|" \o ToString(NP) \o "|" \o FoldLeft(LAMBDA a, b : a \o ";" \o b, "", hist))
  /\ hist' = <<"done">> \o hist /\ UNCHANGED <<I, cut>>

SSpec == SInit /\ [][SNext \/ Done]_svars
=============================================================================
