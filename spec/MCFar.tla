-------------------------------- MODULE MCFar --------------------------------
(***************************************************************************)
(* Large files.  Addresses have 64 bits; what is actually at stake lies in *)
(* a few bytes far into a source, and behind a large output produced by    *)
(* earlier sections.  An author writes for the few bytes; the patch sent   *)
(* has every source address moved by SrcBase and every output address by   *)
(* OutBase.  Read against files that begin there, it must mean the same.   *)
(***************************************************************************)
EXTENDS SmdDecoder, SmdWriter, TLC, Json

CONSTANTS SrcBases, OutBases, Source
VARIABLE sent
vars == <<decVars, w, sent>>

MCPatch(c) == c.patch
MCSrc(c) == Source
MCHas(c) == TRUE
MCInflate(c) == <<>>
MCSrcBase(c) == c.sb
MCOutBase(c) == c.ob

Init == DecInit /\ WInit /\ sent = FALSE /\ cid = [patch |-> <<>>, sb |-> WZero, ob |-> WZero]

Moved(op, sb, ob) == CASE op.t = "D" -> CopyD(WAdd(op.a, sb), op.n)
                       [] op.t = "O" -> CopyO(WAdd(op.a, ob), op.n)
                       [] OTHER -> op
MovedSecs(sb, ob) == [i \in 1..Len(w.secs) |-> [w.secs[i] EXCEPT !.ops = [j \in 1..Len(@) |-> Moved(@[j], sb, ob)]]]

Send ==
  /\ w.closed /\ ~sent /\ sent' = TRUE
  /\ \E sb \in SrcBases, ob \in OutBases :
       LET b == FlattenSeq([i \in 1..Len(w.secs) |-> SectionEnc(MovedSecs(sb, ob)[i])])
       IN /\ cid' = [patch |-> b, sb |-> sb, ob |-> ob]
          /\ PrintT(<<"CASE", ToJson([bytes |-> b, src |-> Source, sb |-> sb, ob |-> ob])>>)
  /\ UNCHANGED <<d, w>>

Next == \/ WNext /\ UNCHANGED <<decVars, sent>>
        \/ Send
        \/ sent /\ ~Stopped /\ DecNext /\ UNCHANGED <<w, sent>>
        \/ Stopped /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* what is far away means what it would mean nearby *)
Shift == Stopped =>
  LET den == Den(WrittenOps, Len(Source)) IN
  /\ d.parse = "ok" /\ d.pos = Len(cid.patch)
  /\ ApplyVerdict = IF den[1] THEN "accept" ELSE "reject"
  /\ den[1] => d.out = Resolve(den[2], Source)
  /\ OutputCopyBad(AllOps) => ~den[1]
  /\ AllOps = [i \in 1..Len(WrittenOps) |-> Moved(WrittenOps[i], cid.sb, cid.ob)]

FarSource == <<11, 22, 33, 44, 55>>
OpsFar == {Add(<<7, 8>>), Run(9, 3), CopyD(WZero, 2), CopyD(FromNat(3), 2), CopyD(FromNat(4), 2), CopyO(WZero, 1), CopyO(WOne, 1)}
OpsFew == {Add(<<7, 8>>), CopyD(FromNat(3), 2), CopyO(WZero, 1), CopyO(WOne, 1)}
(* 0, 2^16, 2^31 - 1, 2^31, 2^32 - 1, 2^32, 2^33, 2^48, 2^62 *)
SrcFar == {WZero, <<65534, 32767, 0, 0>>, <<65535, 32767, 0, 0>>, <<0, 32768, 0, 0>>, <<65533, 65535, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 2, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 16384>>}
(* 0, 2^31, 2^32 - 1, 2^32, 2^32 + 5 *)
OutFar == {WZero, <<0, 32768, 0, 0>>, <<65534, 65535, 0, 0>>, <<0, 0, 1, 0>>, <<5, 0, 1, 0>>}
==============================================================================
