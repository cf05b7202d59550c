------------------------------ MODULE TraceWord ------------------------------
(***************************************************************************)
(* Recorded calls of the integer encodings.  A record holds either a word  *)
(* and all its written forms, a pair of addresses, or a byte string and    *)
(* what reading it returned; the byte string is read by the machine.       *)
(***************************************************************************)
EXTENDS WordMachine, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cid, j
vars == <<in, r, cid, j>>
R == Trace[cid]
Init == cid \in 1..Len(Trace) /\ in = R.bytes /\ r = Start /\ j = "run"
Step == j = "run" /\ ReadByte /\ UNCHANGED <<cid, j>>

ReadOk(o) == IF r.st = "ok" THEN o.r = "ok" /\ o.used = r.used ELSE o.r = "err"
Checks == [
  write  |-> R.uv = UVarint(R.w),
  size   |-> R.size = GroupCount(R.w),
  iwrite |-> R.iv = IVarint(R.w),
  zz     |-> R.zz = ZigZag(R.w),
  uz     |-> R.uz = UnZigZag(R.w),
  read   |-> ReadOk(R.rd) /\ (r.st = "ok" => R.rd.v = r.v),
  iread  |-> ReadOk(R.ird) /\ (r.st = "ok" => R.ird.v = UnZigZag(r.v)),
  diff   |-> R.diff = AddrDiff(R.w, R.b),
  move   |-> R.move = R.b,
  move2  |-> R.move2 = AddrMove(R.w, R.b),
  u16    |-> R.u16 = <<R.w[1] % 256, R.w[1] \div 256>> /\ R.u16r = R.w[1]]
Fails == {f \in DOMAIN Checks : ~Checks[f]}
Judge ==
  /\ j = "run" /\ r.st # "run" /\ UNCHANGED <<in, r, cid>>
  /\ IF Fails = {} THEN j' = "ok" ELSE PrintT(<<"REJECT", R.id, Fails>>) /\ j' = "rejected"
Rest == j \in {"ok", "rejected"} /\ UNCHANGED vars
Next == Step \/ Judge \/ Rest
Spec == Init /\ [][Next]_vars
=============================================================================
