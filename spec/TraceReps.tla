------------------------------- MODULE TraceReps -------------------------------
(***************************************************************************)
(* Determinism: the same call made several times, in different             *)
(* circumstances (after other calls, with streams that deliver piecemeal,  *)
(* in another thread, with reused buffers).  Each outcome is recorded as   *)
(* result, length and digest.  The machine remembers the first outcome and *)
(* compares the others with it, one per step.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cid, k, first, j
vars == <<cid, k, first, j>>
R == Trace[cid]
Init == cid \in 1..Len(Trace) /\ k = 1 /\ first = R.reps[1] /\ j = "run"
Compare ==
  /\ j = "run" /\ k < Len(R.reps)
  /\ UNCHANGED <<cid, first>>
  /\ k' = k + 1
  /\ IF R.reps[k + 1] = first THEN j' = j
     ELSE PrintT(<<"REJECT", R.id, {"reps"}, k + 1>>) /\ j' = "rejected"
Done == j = "run" /\ k = Len(R.reps) /\ j' = "ok" /\ UNCHANGED <<cid, k, first>>
Rest == j \in {"ok", "rejected"} /\ UNCHANGED vars
Next == Compare \/ Done \/ Rest
Spec == Init /\ [][Next]_vars
=============================================================================
