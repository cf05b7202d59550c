------------------------------ MODULE TraceSlice ------------------------------
(* Recorded searches and slices.  R.q: the queries [start, n, find, r, s]. *)
EXTENDS SmdSlice, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cid, k, j
vars == <<cid, k, j>>
R == Trace[cid]
Q == R.q[k]
FindOk == Q.find = Controlling(R.l, Q.start)
SliceOk == IF Covered(R.l, Q.start, Q.n) THEN Q.r = "some" /\ IsSlice(Q.s, R.l, Q.start, Q.n) ELSE Q.r = "none"
Fails == (IF FindOk THEN {} ELSE {"find"}) \cup (IF SliceOk THEN {} ELSE {"slice"})
Init == cid \in 1..Len(Trace) /\ k = 1 /\ j = "run"
Query ==
  /\ j = "run" /\ UNCHANGED cid
  /\ IF Fails # {} THEN PrintT(<<"REJECT", R.id, Fails, Q.start, Q.n>>) /\ j' = "rejected" /\ UNCHANGED k
     ELSE IF k = Len(R.q) THEN j' = "ok" /\ UNCHANGED k
     ELSE k' = k + 1 /\ UNCHANGED j
Rest == j \in {"ok", "rejected"} /\ UNCHANGED vars
Next == Query \/ Rest
Spec == Init /\ [][Next]_vars
=============================================================================
