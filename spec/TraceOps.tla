------------------------------- MODULE TraceOps -------------------------------
(***************************************************************************)
(* Validation of encoder results that are too large to be decoded byte by  *)
(* byte in TLC.  The recorder's own parser (which follows SmdDecoder and   *)
(* is cross-checked against it on the small cases) lists sections and      *)
(* operations; every operation carries a digest of what it denotes and of  *)
(* the bytes of the target at the place where it takes effect.             *)
(*                                                                         *)
(* The machine walks through the operations.  Its invariant is the         *)
(* encoder's contract: everything before position pos of the target has    *)
(* been produced, by operations that were legal when they were performed.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

MaxRun == 62
MaxInst == 65535
MaxSection == 16777215

VARIABLES cid, s, i, pos, cnt, size, adds, lits, j
vars == <<cid, s, i, pos, cnt, size, adds, lits, j>>

R == Trace[cid]
Wants(f) == \E k \in 1..Len(R.want) : R.want[k] = f

Init == /\ cid \in 1..Len(Trace)
        /\ s = 1 /\ i = 1 /\ pos = 0 /\ cnt = 0 /\ size = 0 /\ adds = 0 /\ lits = 0 /\ j = "run"

Stop(why) == /\ PrintT(<<"REJECT", R.id, {why}, "section", s, "op", i, "pos", pos>>)
             /\ j' = "rejected" /\ UNCHANGED <<cid, s, i, pos, cnt, size, adds, lits>>

T == R.ops[i][1]
A == R.ops[i][2]
N == R.ops[i][3]
DG == R.ops[i][4]
TG == R.ops[i][5]

LimitOf(n) == IF n < MaxInst THEN MaxInst ELSE IF n > MaxSection THEN MaxSection ELSE n

LegalHere ==
  CASE T = "A" -> N \in 1..MaxInst
    [] T = "R" -> N \in 1..MaxRun
    [] T = "D" -> N \in 1..MaxInst /\ A >= 0 /\ A + N <= R.srclen
    [] T = "O" -> N \in 1..MaxInst /\ A >= 0 /\ A + N <= pos

Op ==
  /\ j = "run" /\ s <= Len(R.secs) /\ cnt < R.secs[s].nops
  /\ IF Wants("legal") /\ ~LegalHere THEN Stop("legal")
     ELSE IF Wants("target") /\ (pos + N > R.trglen \/ DG # TG) THEN Stop("target")
     ELSE IF Wants("cfg") /\ R.cfg.nosrc /\ T = "D" THEN Stop("cfg")
     ELSE IF Wants("notrgt") /\ R.cfg.notrgt /\ ~R.ops[i][6] THEN Stop("notrgt")
     ELSE /\ i' = i + 1 /\ pos' = pos + N /\ cnt' = cnt + 1 /\ size' = size + N
          /\ adds' = IF T = "A" THEN adds + N ELSE adds
          /\ lits' = IF T = "A" THEN lits + N ELSE lits
          /\ UNCHANGED <<cid, s, j>>

Section ==
  /\ j = "run" /\ s <= Len(R.secs) /\ cnt = R.secs[s].nops
  /\ LET h == R.secs[s]
     IN IF Wants("legal") /\ (h.osz # size \/ h.nadd # adds \/ h.osz > MaxSection \/ h.more # (s < Len(R.secs))) THEN Stop("legal")
        ELSE IF Wants("cfg") /\ (h.algo # R.cfg.algo \/ h.seg # R.cfg.seg \/ h.osz > LimitOf(R.cfg.lim)) THEN Stop("cfg")
        ELSE /\ s' = s + 1 /\ cnt' = 0 /\ size' = 0 /\ adds' = 0
             /\ UNCHANGED <<cid, i, pos, lits, j>>

End ==
  /\ j = "run" /\ s > Len(R.secs)
  /\ IF Wants("wr") /\ R.wr # "ok" THEN Stop("wr")
     ELSE IF Wants("legal") /\ (R.parse # "ok" \/ R.lax \/ R.pos # R.plen) THEN Stop("legal")
     ELSE IF Wants("target") /\ pos # R.trglen THEN Stop("target")
     ELSE IF Wants("rt") /\ ~(R.applied.r = "ok" /\ R.applied.len = R.trglen /\ R.applied.dg = R.trgdg) THEN Stop("apply")
     ELSE IF Wants("lit") /\ lits > R.cfg.lit THEN Stop("lit")
     ELSE IF Wants("nops") /\ i - 1 > R.cfg.nops THEN Stop("nops")
     ELSE IF Wants("same") /\ ~R.same THEN Stop("same")
     ELSE j' = "ok" /\ UNCHANGED <<cid, s, i, pos, cnt, size, adds, lits>>

Rest == j \in {"ok", "rejected"} /\ UNCHANGED vars

Next == Op \/ Section \/ End \/ Rest
=============================================================================
