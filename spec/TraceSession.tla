------------------------------ MODULE TraceSession ------------------------------
(***************************************************************************)
(* Recorded sessions.  The machine keeps what the session should have: the *)
(* versions, and for each patch held the pair it belongs to.  Every call   *)
(* on legal arguments must succeed; every application of a held patch to   *)
(* its first version must give the second; a patch that a merge reported   *)
(* as finished must give it without any source.                            *)
(***************************************************************************)
EXTENDS SmdSession, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cid, k, held, j
vars == <<cid, k, held, j>>
R == Trace[cid]
Ev == R.ev[k]
File(v) == IF v = 0 THEN <<>> ELSE R.versions[v]
Init == cid \in 1..Len(Trace) /\ k = 1 /\ held = <<>> /\ j = "run"
(* held patches by number; a merge may come out as finished *)
Hold(f, t, free) == held' = Append(held, [f |-> f, t |-> t, free |-> free])
Wrong(why) == PrintT(<<"REJECT", R.id, why, k, Ev.k>>) /\ j' = "rejected" /\ UNCHANGED held
Fine == UNCHANGED j
Chain(qs) == \A i \in 1..(Len(qs) - 1) : held[qs[i]].t = held[qs[i + 1]].f
Step ==
  /\ j = "run" /\ k <= Len(R.ev)
  /\ k' = k + 1 /\ UNCHANGED cid
  /\ CASE Ev.r # "ok" -> Wrong("call")
       [] Ev.r = "ok" /\ Ev.k = "E" -> Hold(Ev.f, Ev.t, Ev.f = 0) /\ Fine
       [] Ev.r = "ok" /\ Ev.k = "T" -> Hold(held[Ev.q].f, held[Ev.q].t, held[Ev.q].free) /\ Fine
       [] Ev.r = "ok" /\ Ev.k = "M" -> Assert(Chain(Ev.qs), "not a chain") /\ Hold(held[Ev.qs[1]].f, held[Ev.qs[Len(Ev.qs)]].t, Ev.fin) /\ Fine
       [] Ev.r = "ok" /\ Ev.k = "A" -> IF Ev.out = File(held[Ev.p].t) THEN UNCHANGED held /\ Fine ELSE Wrong("out")
       (* applied without a source: only what needs none *)
       [] OTHER -> IF held[Ev.p].free => Ev.out = File(held[Ev.p].t) THEN UNCHANGED held /\ Fine ELSE Wrong("free")
Judge == j = "run" /\ k > Len(R.ev) /\ j' = "ok" /\ UNCHANGED <<cid, k, held>>
Rest == j \in {"ok", "rejected"} /\ UNCHANGED vars
Next == Step \/ Judge \/ Rest
Spec == Init /\ [][Next]_vars
================================================================================
