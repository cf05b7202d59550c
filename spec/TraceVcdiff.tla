------------------------------ MODULE TraceVcdiff ------------------------------
(***************************************************************************)
(* Recorded conversions: the delta, the source, what the conversion        *)
(* returned, and the file that applying the converted patch produced.      *)
(***************************************************************************)
EXTENDS SmdVcdiff, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE j
vars == <<cid, v, j>>
R == Trace[cid]
T_Delta(c) == Trace[c].delta
T_Source(c) == Trace[c].src
T_Dialect(c) == "lib"
Init == cid \in 1..Len(Trace) /\ VInit /\ j = "run"
Step == j = "run" /\ VNext /\ UNCHANGED j
Ok == CASE v.st = "ok" -> R.r = "ok" /\ R.applied = "ok" /\ R.out = v.out
        [] v.st = "bad" -> R.r = "err" \/ (R.r = "ok" /\ R.applied = "err")
        [] OTHER -> TRUE
Judge ==
  /\ j = "run" /\ VStopped /\ UNCHANGED <<cid, v>>
  /\ IF Ok THEN j' = "ok" ELSE PrintT(<<"REJECT", R.id, v.st, v.why>>) /\ j' = "rejected"
Rest == j \in {"ok", "rejected"} /\ UNCHANGED vars
Next == Step \/ Judge \/ Rest
Spec == Init /\ [][Next]_vars
=============================================================================
