------------------------------ MODULE TraceIter ------------------------------
(* Recorded sequences of calls on the section readers, checked against the   *)
(* machine.  R.secs: the sections of the stream; R.ends: where each of them  *)
(* ends; R.len: length of the stream; R.calls: what was called (k), what     *)
(* came back (r, s), and what was left of the stream when it was taken back. *)
EXTENDS SmdReader, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cid, k, s, j
vars == <<cid, k, s, j>>
R == Trace[cid]
C == R.calls[k]
Left == R.len - (IF s.at = 0 THEN 0 ELSE R.ends[s.at])
Good ==
  CASE C.k \in {"own", "borrow"} -> IF Handed(s) = 0 THEN C.r = "none" ELSE C.r = "ok" /\ C.s = R.secs[Handed(s)]
    [] C.k = "raw" -> C.r = "ok" /\ C.left = R.len - R.ends[s.at + 1] /\ C.s = R.secs[s.at + 1]
    [] C.k = "reopen" -> C.left = Left
After ==
  CASE C.k \in {"own", "borrow"} -> AfterCall(s, R.secs)
    [] C.k = "raw" -> AfterRaw(s)
    [] C.k = "reopen" -> AfterReopen(s)
Init == cid \in 1..Len(Trace) /\ k = 1 /\ s = Start /\ j = "run"
Step ==
  /\ j = "run" /\ UNCHANGED cid
  /\ IF k > Len(R.calls) THEN j' = "ok" /\ UNCHANGED <<k, s>>
     ELSE IF ~Good THEN PrintT(<<"REJECT", R.id, {"call"}, k, C.k>>) /\ j' = "rejected" /\ UNCHANGED <<k, s>>
     ELSE k' = k + 1 /\ s' = After /\ UNCHANGED j
Rest == j \in {"ok", "rejected"} /\ UNCHANGED vars
Next == Step \/ Rest
Spec == Init /\ [][Next]_vars
=============================================================================
