----------------------------- MODULE TraceOutcome -----------------------------
(***************************************************************************)
(* Cases that never returned: the process executing them died or made no   *)
(* progress.  Every call is a two-phase machine: called, then returned     *)
(* with "ok" or "err".  There is no other way for a call to end.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cid, ph
vars == <<cid, ph>>
R == Trace[cid]
Init == cid \in 1..Len(Trace) /\ ph = "called"
Return == ph = "called" /\ R.outcome \in {"ok", "err"} /\ ph' = "returned" /\ UNCHANGED cid
Never == /\ ph = "called" /\ R.outcome \notin {"ok", "err"}
         /\ PrintT(<<"REJECT", R.id, {R.outcome}>>)
         /\ ph' = "lost" /\ UNCHANGED cid
Rest == ph # "called" /\ UNCHANGED vars
Next == Return \/ Never \/ Rest
Spec == Init /\ [][Next]_vars
=============================================================================
