------------------------------- MODULE TraceIO ------------------------------
(***************************************************************************)
(* Persistence: a file written by save determines a forest; every way of   *)
(* reading it back gives that forest.  aux.files remembers, across the     *)
(* cases of one group (which may run on different numbers of processes),   *)
(* what the files on disk were written from.                               *)
(***************************************************************************)
EXTENDS TraceSearch

AllSame(e, k) == \A r \in Procs(e) : e.R[r][k] = e.R[1][k]

FileKey(f) == <<f.ch, f.ah, f.L, f.V, f.dsz, f.part>>
DoSave(e) ==
  /\ Step /\ UNCHANGED <<dead, cs, fs>>
  /\ \E o \in {fs[e.s]} :
     \E f \in {[L |-> o.L, V |-> IF e.sd = 1 THEN o.V ELSE <<>>,
                dsz |-> IF e.sd = 1 THEN o.dsz ELSE 0, sd |-> e.sd,
                part |-> IF e.sp = 1 THEN o.cut ELSE <<0, Len(o.L)>>,
                ch |-> e.R[1].ch, ah |-> e.R[1].ah, crc |-> <<e.crc, e.fsz>>, c |-> cs[o.cs]]} :
     /\ Clause(e, "C18", "saving-changes-nothing",
               /\ PostL(e) = o.L /\ CutOf(e) = o.cut /\ PostV(e) = o.V
               /\ \A r \in Procs(e) : e.R[r].rev = o.rev /\ e.R[r].dsz = o.dsz)
     /\ Clause(e, "C18", "same-forest-same-file",
               \A k \in DOMAIN aux.files :
                 FileKey(aux.files[k]) = FileKey(f) => aux.files[k].crc = f.crc)
     /\ aux' = [aux EXCEPT !.files = (e.id :> f) @@ aux.files]

DoLoad(e) ==
  /\ Step
  /\ UNCHANGED aux
  /\ IF e.id \notin DOMAIN aux.files THEN dead' = TRUE /\ UNCHANGED <<cs, fs>>
     ELSE
     \E f \in {aux.files[e.id]} :
     \E L \in {PostL(e)} :
     \E cok \in {\A r \in Procs(e) : e.R[r].ch = f.ch /\ e.R[r].ah = f.ah} :
     /\ Clause(e, "C18", "connectivity-restored", cok)
     /\ Clause(e, "C18", "user-pointer", \A r \in Procs(e) : e.R[r].up = 1)
     /\ Clause(e, "C18", "leaves-restored", L = f.L)
     /\ IF cok /\ Tiling(L, f.c.nt)
        THEN /\ StateClauses(e, f.c, L, CutOf(e))
             /\ Clause(e, "C18", "bookkeeping", MarkersOk(e, f.c, L, CutOf(e))
                                         /\ \A r \in Procs(e) : MetaRank(e, r, f.c, L, CutOf(e)))
             /\ \E n \in {Adopt(e, e.cs, L)} :
                /\ Clause(e, "C18", "data-restored",
                          IF e.ld = 1 /\ e.ds > 0 THEN n.V = f.V /\ n.dsz = f.dsz ELSE n.dsz = e.ds)
                /\ Clause(e, "C18", "partition",
                          n.cut = IF e.ap = 1 THEN UniformCut(Len(L), e.P) ELSE f.part)
                /\ Clause(e, "C18", "revision-zero", n.rev = 0)
                /\ Clause(e, "C18", "source-read-to-its-end",
                          \A r \in Procs(e) : e.R[r].rest \in {-1, f.crc[2]})
                /\ cs' = (e.cs :> f.c) @@ cs
                /\ fs' = (e.s :> n) @@ fs
             /\ dead' = FALSE
        ELSE dead' = TRUE /\ UNCHANGED <<cs, fs>>

(***************************************************************************)
(* C30: deflate and inflate.                                               *)
(***************************************************************************)
NoTree(q) == Tail(q)
\* leaves given by arrays, cumulative tree counts
TreeAt(pt, i) == CHOOSE t \in 0..(Len(pt) - 2) : pt[t + 1] < i /\ i <= pt[t + 2]
FromArrays(rows, pt) == [i \in 1..Len(rows) |-> <<TreeAt(pt, i)>> \o rows[i]]
DoInflate(e) ==
  /\ Step /\ UNCHANGED cs
  /\ \E o \in {fs[e.s]} :
     \E c \in {cs[o.cs]} :
     \E want \in {FromArrays(Flat([r \in Procs(e) |-> e.R[r].in]), e.ipt)} :
     /\ Clause(e, "C30", "deflated-leaves", \A r \in Procs(e) :
          LET ll == LocalOf(o.L, o.cut, r - 1) IN
          e.R[r].arr = [i \in 1..Len(ll) |-> NoTree(ll[i])])
     /\ Clause(e, "C30", "deflated-data", e.wd = 1 => \A r \in Procs(e) :
          e.R[r].arrv = LocalOf(o.V, o.cut, r - 1))
     /\ Clause(e, "C30", "per-tree-counts", \A r \in Procs(e) :
          /\ Len(e.R[r].pt) = c.nt + 1 /\ e.R[r].pt[1] = 0
          /\ \A t \in 1..c.nt : e.R[r].pt[t + 1] =
               Cardinality({i \in 1..Len(o.L) : o.L[i][1] <= t - 1}))
     /\ IF e.cor # 0
        THEN /\ Clause(e, "C30", "null-unless-valid", \A r \in Procs(e) :
                  (e.R[r].nul = 0) = (Tiling(want, c.nt)))
             /\ UNCHANGED <<dead, fs, aux>>
        ELSE /\ Clause(e, "C30", "inflated", \A r \in Procs(e) : e.R[r].nul = 0 /\ e.R[r].up = 1)
             /\ LET Cl(L, n) ==
                  /\ Clause(e, "C30", "inflated-leaves", L = o.L)
                  /\ Clause(e, "C30", "inflated-partition", n.cut = e.igfq)
                  /\ Clause(e, "C30", "inflated-data", IF e.wd = 1 THEN n.V = o.V /\ n.dsz = o.dsz ELSE n.dsz = 0)
                  /\ Clause(e, "C30", "inflated-revision", n.rev = 0)
                  /\ Clause(e, "C30", "inflated-bookkeeping", MarkersOk(e, c, L, CutOf(e))
                                 /\ \A r \in Procs(e) : MetaRank(e, r, c, L, CutOf(e)))
                IN IF e.R[1].nul = 0 THEN WithPost(e, e.d, o.cs, Cl)
                   ELSE dead' = TRUE /\ UNCHANGED <<fs, aux>>

(***************************************************************************)
(* C33: connectivities through files, buffers, streams and messages.       *)
(* mode 5 copies without attributes; 8 and 9 are damaged inputs.           *)
(***************************************************************************)
DoCio(e) ==
  /\ Step /\ UNCHANGED <<fs, aux, dead>>
  /\ Clause(e, "C33", "input-unchanged", \A r \in Procs(e) :
       e.R[r].h3 = e.R[1].h1 /\ e.R[r].a3 = e.R[1].a1)
  /\ IF e.mode >= 8
     THEN /\ Clause(e, "C33", "damaged-input-refused", \A r \in Procs(e) : e.R[r].nul = 1)
          /\ UNCHANGED cs
     ELSE /\ Clause(e, "C33", "restored", \A r \in Procs(e) :
               LET R == e.R[r] IN
               /\ R.nul = 0 /\ R.bad = 0 /\ R.val = 1
               /\ R.h2 = e.R[1].h1 /\ R.h1 = R.h2
               /\ IF e.mode = 5 THEN R.at = 0 ELSE R.a2 = e.R[1].a1 /\ R.at = R.oat)
          /\ Clause(e, "C33", "equality-test", \A r \in Procs(e) :
               LET R == e.R[r] IN
               /\ R.eqv = 1
               /\ R.eq = IF e.mode = 5 /\ R.oat = 1 THEN 0 ELSE 1)
          /\ cs' = IF \A r \in Procs(e) : e.R[r].nul = 0 /\ e.R[r].h2 = e.R[1].h1
                   THEN (e.c2 :> cs[e.c1]) @@ cs ELSE cs

IOKinds == {"save", "load", "inflate", "cio"}
IOOp(e) ==
  CASE e.k = "save" -> DoSave(e) [] e.k = "load" -> DoLoad(e)
    [] e.k = "inflate" -> DoInflate(e) [] e.k = "cio" -> DoCio(e)
=============================================================================
