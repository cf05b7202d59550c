------------------------------- MODULE TraceConfig -------------------------------
(* Recorded encodings: the calls that made the configuration, and the sections that came out. *)
EXTENDS SmdConfig, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cid, k, cfg, j
vars == <<cid, k, cfg, j>>
R == Trace[cid]
NC == Len(R.calls)
Init == cid \in 1..Len(Trace) /\ k = 1 /\ cfg = Construct(R.calls[1]) /\ j = "run"
Call == j = "run" /\ k < NC /\ cfg' = Set(cfg, R.calls[k + 1]) /\ k' = k + 1 /\ UNCHANGED <<cid, j>>
Section ==
  /\ j = "run" /\ k >= NC /\ k < NC + Len(R.secs)
  /\ k' = k + 1 /\ UNCHANGED <<cid, cfg>>
  /\ IF Honours(cfg, R.secs[k - NC + 1], R.hs) THEN UNCHANGED j
     ELSE PrintT(<<"REJECT", R.id, "section", k - NC + 1>>) /\ j' = "rejected"
Judge == j = "run" /\ k = NC + Len(R.secs) /\ UNCHANGED <<cid, k, cfg>>
  /\ IF R.r = "ok" THEN j' = "ok" ELSE PrintT(<<"REJECT", R.id, R.r>>) /\ j' = "rejected"
Rest == j \in {"ok", "rejected"} /\ UNCHANGED vars
Next == Call \/ Section \/ Judge \/ Rest
Spec == Init /\ [][Next]_vars
=================================================================================
