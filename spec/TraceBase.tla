------------------------------ MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation: common state and clauses.  A trace line is one        *)
(* operation of the real library with its arguments, callback log and the  *)
(* resulting state projected from every process.  Each line is matched by  *)
(* one step.  A clause that is false is reported as                        *)
(*    REJECT <property> <clause> <case> <op> <line>                        *)
(* Clauses of other properties than the one being decided are skipped.     *)
(***************************************************************************)
EXTENDS Forest, Json, IOUtils

TRACEFILE == IOEnv.TRACE
PID == IOEnv.PID
Trace == TLCEval(ndJsonDeserialize(TRACEFILE))

VARIABLES l,        \* next line of the trace
          dead,     \* the rest of the case cannot be judged
          cs,       \* connectivity slots
          fs,       \* forest slots
          aux       \* memory across operations and cases

vars == <<l, dead, cs, fs, aux>>

\* a property that rests on others takes over their clauses
Rests == IF PID = "C26" THEN {"C01", "C09", "C15"} ELSE IF PID = "C28" THEN {"C01"} ELSE {}
Is(pids) == PID \in pids \/ PID = "ALL" \/ pids \cap Rests # {}
Reject(e, pid, name) ==
  PrintT("REJECT|" \o (IF pid \in Rests THEN PID ELSE pid) \o "|" \o name \o "|" \o ToString(e.c) \o "|" \o ToString(e.o) \o "|" \o e.k)
\* a clause of property pid; always TRUE, reports when violated
Clause(e, pid, name, expr) ==
  IF Is({pid}) THEN (IF expr THEN TRUE ELSE Reject(e, pid, name)) ELSE TRUE

Procs(e) == 1..e.P
\* all leaves in rank order, all payloads in rank order
PostL(e) == Flat([r \in Procs(e) |-> e.R[r].q])
PostV(e) == Flat([r \in Procs(e) |-> e.R[r].v])
CutOf(e) == PrefixSums([r \in Procs(e) |-> Len(e.R[r].q)])

\* forest value adopted from a line
Adopt(e, csl, L) ==
  [cs |-> csl, L |-> L, V |-> PostV(e), cut |-> CutOf(e), P |-> e.P,
   rev |-> e.R[1].rev, dsz |-> e.R[1].dsz, I |-> Interior(SetOf(L))]

(***************************************************************************)
(* C01: bookkeeping of every process agrees with the leaves.               *)
(***************************************************************************)
MetaRank(e, r, c, L, cut) ==
  LET R == e.R[r]
      n == Len(R.q)
      inTree(t) == SelectSeq(R.q, LAMBDA q : q[1] = t)
  IN /\ R.same = 1
     /\ R.lnq = n /\ R.gnq = Len(L) /\ R.rev = e.R[1].rev /\ R.dsz = e.R[1].dsz
     /\ IF n = 0 THEN R.ft = -1 /\ R.lt = -2
        ELSE R.ft = R.q[1][1] /\ R.lt = R.q[n][1]
     /\ Len(R.tr) = c.nt
     /\ \A t \in 0..(c.nt - 1) :
          LET x == R.tr[t + 1]
              qs == inTree(t)
              m == Len(qs)
              mx == IF m = 0 THEN 0 ELSE CHOOSE v \in {qs[i][2] : i \in 1..m} :
                                           \A i \in 1..m : qs[i][2] <= v
              below == Len(SelectSeq(R.q, LAMBDA q : q[1] < t))
          IN /\ x[1] = below
             /\ x[2] = mx
             /\ Len(x[3]) = IF m = 0 THEN 0 ELSE mx + 1
             /\ \A i \in 1..Len(x[3]) : x[3][i] = Len(SelectSeq(qs, LAMBDA q : q[2] = i - 1))
             /\ IF m = 0 THEN x[4] = <<>>
                ELSE x[4] = <<FirstDesc(qs[1], QMAXL), LastDesc(qs[m], QMAXL)>>

FirstPos(L, k, nt) == IF k < Len(L) THEN FirstDesc(L[k + 1], QMAXL)
                      ELSE [RootQ(nt) EXCEPT ![2] = QMAXL]

\* partition markers (replicated)
MarkersOk(e, c, L, cut) ==
  /\ e.gfq = cut
  /\ Len(e.gfp) = e.P + 1
  /\ \A r \in 1..(e.P + 1) : e.gfp[r] = FirstPos(L, cut[r], c.nt)

\* clauses on a forest state that must hold after every operation
StateClauses(e, c, L, cut) ==
  /\ Clause(e, "C01", "counts-and-markers", MarkersOk(e, c, L, cut))
  /\ Clause(e, "C01", "bookkeeping", \A r \in Procs(e) : MetaRank(e, r, c, L, cut))
  /\ Clause(e, "C01", "revision", e.R[1].rev >= 0)

(***************************************************************************)
(* C08: payloads and callback log.  The log of one process is replayed: an *)
(* initialisation sets a fresh value, a replacement must show the current  *)
(* values of outgoing and incoming quadrants and sets new incoming ones.   *)
(***************************************************************************)
MapOf(qs, vs) == [q \in Range(qs) |-> vs[CHOOSE i \in 1..Len(qs) : qs[i] = q]]
InitCalls(cb) == SelectSeq(cb, LAMBDA x : x[1] = "i")
ReplCalls(cb) == SelectSeq(cb, LAMBDA x : x[1] = "r")
NoDup(s) == Cardinality(Range(s)) = Len(s)

Cur(m, q) == IF q \in DOMAIN m THEN m[q] ELSE -7     \* -7: not known
RECURSIVE PutAll(_, _)
PutAll(m, ins) == IF ins = <<>> THEN m
                  ELSE PutAll((ins[1][1] :> ins[1][3]) @@ m, Tail(ins))
\* replay: [ok, m]
ReplayCb(cb, m0, withInit, dsz) ==
  FoldLeft(LAMBDA a, x :
     IF x[1] = "i" THEN [a EXCEPT !.m = (x[2] :> x[3]) @@ a.m]
     ELSE IF x[1] = "r"
     THEN [ok |-> a.ok /\ (dsz = 0 \/
               (/\ \A i \in 1..Len(x[2]) : Cur(a.m, x[2][i][1]) \in {x[2][i][2], -7}
                /\ \A i \in 1..Len(x[3]) :
                     ~withInit \/ Cur(a.m, x[3][i][1]) = x[3][i][2])),
           m |-> PutAll(a.m, x[3])]
     ELSE IF x[1] = "a"
     THEN [a EXCEPT !.ok = a.ok /\ (dsz = 0 \/ Cur(a.m, x[3]) \in {x[4], -7})]
     ELSE IF x[1] \in {"o"}
     THEN [a EXCEPT !.ok = a.ok /\ (dsz = 0 \/ Cur(a.m, x[2]) \in {x[3], -7})]
     ELSE IF x[1] \in {"c", "C"}
     THEN [a EXCEPT !.ok = a.ok /\ (dsz = 0 \/ \A i \in 1..Len(x[3]) :
                                      Cur(a.m, x[3][i]) \in {x[4][i], -7})]
     ELSE a,
   [ok |-> TRUE, m |-> m0], cb)

\* local data clause for refine/coarsen/balance on process r.
\* before/after: sequences of leaves and payloads; gone: nodes that were
\* leaves at some time and were replaced; dir: 1 refinement, -1 coarsening
DataOk(e, r, preq, prev, fl) ==
  LET R == e.R[r]
      dsz == R.dsz
      withInit == fl % 2 = 1
      withRepl == (fl \div 2) % 2 = 1
      pre == IF dsz > 0 THEN MapOf(preq, prev) ELSE <<>>
      rp == ReplayCb(R.cb, pre, withInit, dsz)
      known(q) == IF withInit \/ withRepl THEN TRUE ELSE q \in DOMAIN pre
  IN /\ rp.ok
     /\ dsz > 0 =>
          /\ Len(R.v) = Len(R.q)
          /\ \A i \in 1..Len(R.q) :
               known(R.q[i]) => Cur(rp.m, R.q[i]) \in {R.v[i]} \cup
                                  (IF withInit \/ withRepl THEN {} ELSE {-7})
InitOk(R, newLeaves, mayInit, fl) ==
  LET ii == InitCalls(R.cb)
      qs == [i \in 1..Len(ii) |-> ii[i][2]]
  IN IF fl % 2 = 0 THEN ii = <<>>
     ELSE NoDup(qs) /\ newLeaves \subseteq Range(qs) /\ Range(qs) \subseteq mayInit
\* replacements as <<set of outgoing, set of incoming>> with lengths
ReplPairs(R) ==
  LET rr == ReplCalls(R.cb)
  IN [i \in 1..Len(rr) |-> <<[j \in 1..Len(rr[i][2]) |-> rr[i][2][j][1]],
                             [j \in 1..Len(rr[i][3]) |-> rr[i][3][j][1]]>>]
ChildSeq(p) == [i \in 1..NC |-> Child(p, i - 1)]
ReplOk(R, split, merged, fl) ==
  LET rp == ReplPairs(R)
  IN IF (fl \div 2) % 2 = 0 THEN rp = <<>>
     ELSE /\ NoDup(rp)
          /\ Range(rp) = {<<<<p>>, ChildSeq(p)>> : p \in split}
                         \cup {<<ChildSeq(p), <<p>>>> : p \in merged}
=============================================================================
