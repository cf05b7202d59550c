------------------------------ MODULE TracePatch ------------------------------
(***************************************************************************)
(* Validation of recorded observations about patches.                      *)
(*                                                                         *)
(* Every record of the trace is one patch together with what the real code *)
(* did with it (applied it, read it, extracted it ...) or how it came to   *)
(* be (written from these operations, encoded from these files under this  *)
(* configuration).  The decoder machine of the specification is run over   *)
(* the recorded bytes; when it stops, the facets listed in the record's    *)
(* "want" are judged against the machine's verdict.                        *)
(*                                                                         *)
(* Rejected records are printed (REJECT id facet); the behaviour then      *)
(* stops in phase "judged" like the accepted ones.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES cid, d, j
vars == <<cid, d, j>>

T_PatchOf(c)   == Trace[c].patch
T_SrcOf(c)     == Trace[c].src
T_HasSrc(c)    == Trace[c].hs
T_InflateOf(c) == Trace[c].inf
T_SrcBaseOf(c) == Trace[c].sb
T_OutBaseOf(c) == Trace[c].ob

D == INSTANCE SmdDecoder WITH PatchOf <- T_PatchOf, SrcOf <- T_SrcOf, HasSrc <- T_HasSrc, InflateOf <- T_InflateOf, SrcBaseOf <- T_SrcBaseOf, OutBaseOf <- T_OutBaseOf

R == Trace[cid]

-----------------------------------------------------------------------------
(* Facets *)

Total(o) == o.r \in {"ok", "err"}          \* no panic, no hang, no runaway memory

Agree(verdict, o, same) ==
  CASE verdict = "accept" -> o.r = "ok" /\ same
    [] verdict = "reject" -> o.r = "err"
    [] verdict = "maybe"  -> o.r = "err" \/ (o.r = "ok" /\ same)
    [] OTHER -> Total(o)

Plain == \A i \in 1..Len(d.secs) : d.secs[i].algo = 0    \* nothing compressed seen

ApplyOk == Agree(D!ApplyVerdict, R.apply, R.apply.out = d.out)

(* a reader's sections: all of them when accepted, the ones before the damage when refused *)
SecsAgree(verdict, o) ==
  CASE verdict = "accept" -> o.r = "ok" /\ o.secs = d.secs
    [] verdict = "reject" -> o.r = "err" /\ o.secs = d.secs
    [] verdict = "maybe"  -> o.r = "err" \/ (o.r = "ok" /\ o.secs = d.secs)
    [] OTHER -> Total(o)

ReadOk == SecsAgree(D!ReadVerdict, R.rd)
OwnedOk == R.rdo = R.rd                    \* owned, borrowed and mixed iteration agree
MixedOk == R.rdm = R.rd
AlgoSeen == ~Plain \/ (d.parse # "ok" /\ d.oh.algo # 0)
RawOk == IF AlgoSeen \/ d.parse = "free" THEN Total(R.raw) ELSE SecsAgree(D!ReadVerdict, R.raw)
RawLeftOk == ~AlgoSeen /\ d.parse = "ok" /\ R.raw.r = "ok" => R.raw.left = Len(R.patch) - d.pos

RECURSIVE PosOf(_, _, _)
PosOf(ops, i, p) == IF i > Len(ops) THEN <<>> ELSE <<p>> \o PosOf(ops, i + 1, p + D!OpLen(ops[i]))

StatsOf(ops) == [ab |-> D!LenT(ops, {"A"}), rb |-> D!LenT(ops, {"R"}), cb |-> D!LenT(ops, {"D", "O"}),
                 ac |-> D!CountT(ops, "A"), rc |-> D!CountT(ops, "R"),
                 dc |-> D!CountT(ops, "D"), oc |-> D!CountT(ops, "O"), os |-> D!OutLen(ops),
                 hc |-> IF D!CountT(ops, "D") + D!CountT(ops, "O") > 0 THEN 1 ELSE 0]

ExtOk ==
  LET ops == D!AllOps
  IN Agree(D!ExtractVerdict(D!OutputCopyBad(ops)), R.ext,
           R.ext.ops = ops /\ R.ext.pos = PosOf(ops, 1, 0) /\ R.ext.stats = StatsOf(ops))

(* the patch is exactly one well-formed patch, and nothing else *)
WellFormed == d.parse = "ok" /\ ~d.lax /\ d.pos = Len(R.patch)
Applicable == WellFormed /\ d.dOk /\ d.oOk
TargetOk == Applicable /\ d.out = R.target

OpsOk == WellFormed /\ D!AllOps = R.ops

LimitOf(n) == IF n < D!MaxInst THEN D!MaxInst ELSE IF n > D!MaxSection THEN D!MaxSection ELSE n

(* what was asked of the layout *)
CfgOk ==
  /\ d.parse = "ok"
  /\ \A i \in 1..Len(d.secs) :
       /\ d.secs[i].algo = R.cfg.algo
       /\ d.secs[i].seg = R.cfg.seg
       /\ d.secs[i].osz <= LimitOf(R.cfg.lim)
  /\ R.cfg.nosrc => \A i \in 1..Len(D!AllOps) : D!AllOps[i].t # "D"

(* without target matching, output copies only repeat a run *)
RunsOnly(ops) ==
  FoldLeft(LAMBDA acc, op : <<acc[1] /\ (op.t = "O" => \A i \in 1..op.n :
                                            d.out[D!ToNat(op.a) + i] = d.out[D!ToNat(op.a) + 1]),
                              acc[2] + D!OpLen(op)>>, <<TRUE, 0>>, ops)[1]
NoTrgtOk == d.parse = "ok" /\ (R.cfg.notrgt => RunsOnly(D!AllOps))

LiteralOk == d.parse = "ok" /\ D!AddLen(D!AllOps) <= R.cfg.lit
FewOps == d.parse = "ok" /\ Len(D!AllOps) <= R.cfg.nops

(* the truth of the headers is part of d.parse = "ok"; headers as handed to the writer *)
HeadsOk == Len(R.heads) = Len(d.secs)
           /\ \A i \in 1..Len(d.secs) :
                LET s == d.secs[i]  h == R.heads[i]
                IN /\ s.nops = h.nops /\ s.osz = h.osz /\ s.more = h.more
                   /\ s.nadd = h.nadd /\ s.algo = h.algo /\ s.seg = h.seg

(* round trip: what was applied is the target *)
RtOk == R.apply.r = "ok" /\ R.apply.out = R.target
(* nothing impossible is reported as applied *)
RejOk == D!ApplyVerdict = "reject" => R.apply.r # "ok"
(* the sections read back are the ones that were written *)
BackOk(o) == o.r = "ok" /\ o.secs = R.heads
(* header facts as handed out by a reader *)
HdrsEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].nops = b[i].nops /\ a[i].nadd = b[i].nadd /\ a[i].osz = b[i].osz
(* compressed and plain form of the same content *)
OpsOf(o) == [i \in 1..Len(o.secs) |-> o.secs[i].ops]
TranspOk == R.rd.r = R.rd0.r /\ OpsOf(R.rd) = OpsOf(R.rd0)

SrcLen == Len(R.src)
(* the patch means what the operations dops mean, whatever the source *)
DenOk == WellFormed /\ LET a == D!Den(D!AllOps, SrcLen)  b == D!Den(R.dops, SrcLen)
                       IN a[1] /\ b[1] /\ a[2] = b[2]

(* meaning of the patches chain[from..to] applied one after another, the first one
   to a source of n bytes *)
RECURSIVE ChainDen(_, _, _)
ChainDen(from, to, n) ==
  IF to = from THEN D!Den(R.chain[from], n)[2]
  ELSE LET before == ChainDen(from, to - 1, n)
       IN D!Compose(D!Den(R.chain[to], Len(before))[2], before)
SrcLenOf(k) == IF k = 1 THEN SrcLen ELSE D!OutLen(R.chain[k - 1])
Whole == ChainDen(1, Len(R.chain), SrcLen)
MergeOk == WellFormed /\ LET a == D!Den(D!AllOps, SrcLen) IN a[1] /\ a[2] = Whole
TopsOk == LET a == D!Den(R.tops, SrcLen) IN a[1] /\ a[2] = Whole
(* after merging k patches (the last k of the chain): finished iff no byte comes from a source *)
DoneOk == \A k \in 1..Len(R.done) :
            LET from == Len(R.chain) + 1 - k
            IN R.done[k] = ~D!DependsOnSrc(ChainDen(from, Len(R.chain), SrcLenOf(from)))

(* the extracted operations with their output copies resolved *)
DerefOk ==
  LET a == D!Den(D!AllOps, SrcLen)
  IN WellFormed /\ a[1] =>
       /\ R.deref.r = "ok"
       /\ \A i \in 1..Len(R.deref.ops) : R.deref.ops[i].t # "O" /\ D!OpLen(R.deref.ops[i]) > 0
       /\ R.deref.pos = PosOf(R.deref.ops, 1, 0)
       /\ D!Den(R.deref.ops, SrcLen) = a

Facet(f) ==
  CASE f = "apply"  -> ApplyOk
    [] f = "applyt" -> Total(R.apply)
    [] f = "read"   -> ReadOk
    [] f = "owned"  -> OwnedOk
    [] f = "mixed"  -> MixedOk
    [] f = "raw"    -> RawOk
    [] f = "left"   -> RawLeftOk
    [] f = "after"  -> \A i \in 1..Len(R.after) : R.after[i] = "none"
    [] f = "ext"    -> ExtOk
    [] f = "wf"     -> WellFormed
    [] f = "legal"  -> Applicable
    [] f = "target" -> TargetOk
    [] f = "ops"    -> OpsOk
    [] f = "cfg"    -> CfgOk
    [] f = "notrgt" -> NoTrgtOk
    [] f = "lit"    -> LiteralOk
    [] f = "nops"   -> FewOps
    [] f = "heads"  -> HeadsOk
    [] f = "same"   -> R.same = TRUE
    [] f = "others" -> \A i \in 1..Len(R.others) : Total(R.others[i])
    [] f = "mem"    -> R.peak <= R.allow /\ R.peak2 <= R.allow2
    [] f = "wr"     -> R.wr = "ok"
    [] f = "refused" -> R.wr = "err"
    [] f = "rt"     -> RtOk
    [] f = "rej"    -> RejOk
    [] f = "back"   -> BackOk(R.rd)
    [] f = "backraw" -> BackOk(R.raw)
    [] f = "leftx"  -> R.raw.left = R.trail
    [] f = "hdrs"   -> R.rd.r = "ok" => HdrsEq(R.rd.secs, R.heads)
    [] f = "hdrsraw" -> R.raw.r = "ok" => HdrsEq(R.raw.secs, R.heads)
    [] f = "transp" -> TranspOk
    [] f = "transpa" -> R.apply = R.apply0
    [] f = "den"    -> DenOk
    [] f = "deref"  -> DerefOk
    [] f = "merge"  -> MergeOk
    [] f = "tops"   -> TopsOk
    [] f = "done"   -> DoneOk
    [] f = "srcsame" -> R.srcsame = TRUE

Fails == {f \in {R.want[i] : i \in 1..Len(R.want)} : ~Facet(f)}

-----------------------------------------------------------------------------
Init == cid \in 1..Len(Trace) /\ D!DecInit /\ j = "run"

Step == j = "run" /\ D!DecNext /\ UNCHANGED j

Judge ==
  /\ j = "run" /\ D!Stopped
  /\ UNCHANGED <<cid, d>>
  /\ IF Fails = {} THEN j' = "ok"
     ELSE /\ PrintT(<<"REJECT", R.id, Fails, d.parse, d.why>>)
          /\ j' = "rejected"

Rest == j \in {"ok", "rejected"} /\ UNCHANGED vars

Next == Step \/ Judge \/ Rest
=============================================================================
