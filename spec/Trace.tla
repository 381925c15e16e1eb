-------------------------------- MODULE Trace -------------------------------
EXTENDS Trace6N

Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} :
     IF e.k = "case" THEN PrintT("AT|" \o ToString(e.c)) /\ DoCase(e)
     ELSE IF dead THEN Step /\ UNCHANGED <<dead, cs, fs, aux>>
     ELSE IF e.k = "conn" THEN DoConnT(e)
     ELSE IF e.k \in CoreKinds THEN Core(e)
     ELSE IF e.k \in GhostKinds THEN GhostOp(e)
     ELSE IF e.k \in IterKinds THEN IterOp(e)
     ELSE IF e.k \in NodeKinds THEN NodeOp(e)
     ELSE IF e.k \in MeshKinds THEN MeshOp(e)
     ELSE IF e.k \in SearchKinds THEN SearchOp(e)
     ELSE IF e.k \in IOKinds THEN IOOp(e)
     ELSE IF e.k \in BuildKinds THEN BuildOp(e)
     ELSE IF e.k \in BitKinds THEN BitOp(e)
     ELSE IF e.k \in TopoKinds THEN TopoOp(e)
     ELSE IF e.k \in WrapKinds THEN WrapOp(e)
     ELSE IF e.k \in PlexKinds THEN PlexOp(e)
     ELSE IF e.k \in VtkKinds THEN VtkOp(e)
     ELSE IF e.k \in ColKinds THEN ColOp(e)
     ELSE IF e.k \in NumKinds THEN NumOp(e)
     ELSE FALSE

Spec == TraceInit /\ [][Next]_vars

Accepted1 == PrintT("DONE|" \o ToString(TLCGet("stats").diameter - 1) \o "|" \o ToString(Len(Trace)))
=============================================================================
