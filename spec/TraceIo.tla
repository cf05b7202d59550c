--------------------------------- MODULE TraceIo ---------------------------------
(***************************************************************************)
(* Recorded calls of the real code on its caller's streams.  Every event is*)
(* one call: the stream, the kind ("r", "w", "s" or "f"), what was asked,  *)
(* what the environment let happen ("F", "S", "I", "Z", "X") and how much  *)
(* went through (for "w" the bytes, for "s" the position).  The machine    *)
(* replays them on its own streams.  When the operation has returned:      *)
(*   a call failed                        -> it must have returned "err"   *)
(*   interrupted, or nothing transferred  -> "err", or as if undisturbed   *)
(*   otherwise                            -> as if undisturbed             *)
(* "As if undisturbed": the result of the undisturbed run of the same      *)
(* call, and the contents the machine's streams now have are the contents  *)
(* that run left.                                                          *)
(***************************************************************************)
EXTENDS SmdIo, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cid, k, out, failed, odd, j
vars == <<cid, k, out, failed, odd, j>>
R == Trace[cid]
Ev == R.ev[k]
Init == cid \in 1..Len(Trace) /\ k = 1 /\ out = Stream(<<>>) /\ failed = FALSE /\ odd = FALSE /\ j = "run"
(* only the stream that is written has contents worth following *)
Call ==
  /\ j = "run" /\ k <= Len(R.ev)
  /\ k' = k + 1
  /\ failed' = (failed \/ Ev.o = "X")
  /\ odd' = (odd \/ Ev.o \in {"I", "Z"})
  /\ out' = IF Ev.s # "o" \/ Ev.o \in {"X", "I", "Z"} THEN out
            ELSE CASE Ev.k = "w" -> Wrote(out, Ev.b) [] Ev.k = "r" -> Took(out, Ev.n) [] Ev.k = "s" -> Moved(out, Ev.n) [] OTHER -> out
  /\ UNCHANGED <<cid, j>>
AsUndisturbed == R.r = R.base /\ (R.r = "ok" => R.res = R.baseres /\ out.data = R.baseout)
Ok == /\ R.r \in {"ok", "err"}
      /\ IF failed THEN R.r = "err"
         ELSE IF odd THEN R.r = "err" \/ AsUndisturbed
         ELSE AsUndisturbed
Judge ==
  /\ j = "run" /\ k > Len(R.ev) /\ UNCHANGED <<cid, k, out, failed, odd>>
  /\ IF Ok THEN j' = "ok" ELSE PrintT(<<"REJECT", R.id, failed, odd, R.r>>) /\ j' = "rejected"
Rest == j \in {"ok", "rejected"} /\ UNCHANGED vars
Next == Call \/ Judge \/ Rest
Spec == Init /\ [][Next]_vars
================================================================================
