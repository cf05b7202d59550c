---------------------------- MODULE TraceSections ----------------------------
(***************************************************************************)
(* A recorded partition is followed group by group: each must be one the   *)
(* machine could have closed, with the header the machine gives it.        *)
(***************************************************************************)
EXTENDS SmdSections, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cid, j
vars == <<ops, req, at, groups, cid, j>>
R == Trace[cid]
Init == cid \in 1..Len(Trace) /\ ops = R.ops /\ req = R.req /\ at = 0 /\ groups = <<>> /\ j = "run"
K == Len(groups) + 1
Reject(why) == PrintT(<<"REJECT", R.id, why>>) /\ j' = "rejected" /\ UNCHANGED <<ops, req, at, groups>>
More == j = "run" /\ R.r = "ok" /\ K <= Len(R.groups)
N == Len(R.groups[K].ops)
Legal == CloseGroup(N) /\ groups'[K] = R.groups[K]
Follow == More /\ UNCHANGED cid /\ Legal /\ UNCHANGED j
Lost == More /\ UNCHANGED cid /\ ~(ENABLED Legal) /\ Reject(<<"group", K>>)
Judge ==
  /\ j = "run" /\ ~More /\ UNCHANGED cid
  /\ IF R.r # "ok" THEN Reject(R.r)
     ELSE IF ~Finished \/ ~IsPartition(groups) THEN Reject("incomplete")
     ELSE j' = "ok" /\ UNCHANGED <<ops, req, at, groups>>
Rest == j \in {"ok", "rejected"} /\ UNCHANGED vars
Next == Follow \/ Lost \/ Judge \/ Rest
Spec == Init /\ [][Next]_vars
=============================================================================
