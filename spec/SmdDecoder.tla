------------------------------ MODULE SmdDecoder ------------------------------
(***************************************************************************)
(* The reading side as a state machine: it consumes the bytes of a patch,  *)
(* builds the sections they describe, and performs their operations.       *)
(*                                                                         *)
(* It is written from the format document, not from the code.  For every   *)
(* byte string it reaches exactly one verdict:                             *)
(*   parse = "ok"    the bytes are a complete and consistent patch;        *)
(*           "bad"   no reader may accept them;                            *)
(*           "free"  the document leaves it open (unassigned compression   *)
(*                   algorithms, a damaged foreign compression stream ..): *)
(*                   readers may accept or refuse, but must do either.     *)
(*   lax = TRUE      a reader may also refuse, but if it accepts, what it  *)
(*                   returns must be what this machine says.               *)
(* and independently of parsing whether the operations can be performed:   *)
(*   dOk   every dictionary copy lies inside the source                    *)
(*   oOk   every output copy lies inside output generated before it        *)
(*                                                                         *)
(* A case cid names the input: its bytes, its source and, for sections     *)
(* compressed with zstd or brotli, what an independent decompressor finds. *)
(***************************************************************************)
EXTENDS SmdFormat

CONSTANTS PatchOf(_),      \* bytes of the patch
          SrcOf(_),        \* bytes of the source, <<>> when there is none
          HasSrc(_),       \* is there a source?
          InflateOf(_),    \* sequence, one entry per zstd/brotli section in order:
                           \* [st |-> "ok"|"trunc"|"bad", used |-> n, data |-> bytes]
          SrcBaseOf(_),    \* words: where in the real source SrcOf begins (what lies before is unreadable),
          OutBaseOf(_)     \* and how much output the sections before these ones have produced

VARIABLES cid, d
decVars == <<cid, d>>

(* Byte i (1-based) of what is being read: the patch itself, or at level 2
   the decompressed data of the current section. *)
Limit == IF d.lvl = 2 THEN Len(d.buf) ELSE Len(PatchOf(cid))
Cur   == IF d.lvl = 2 THEN d.bpos ELSE d.pos
At(i) == IF d.lvl = 2 THEN d.buf[i] ELSE PatchOf(cid)[i]
MoveTo(dd, p) == IF dd.lvl = 2 THEN [dd EXCEPT !.bpos = p] ELSE [dd EXCEPT !.pos = p]

(* A u-varint that starts behind position p:
   <<"ok", value, end>>, <<"eof">> or <<"over">> *)
RECURSIVE UVarAt(_, _, _)
UVarAt(p, i, acc) ==
  IF p + 1 > Limit THEN <<"eof">>
  ELSE LET by == At(p + 1)
           g == by % 128
       IN IF i > 9 \/ ~GroupFits(i, g) \/ (i = 9 /\ by >= 128) THEN <<"over">>
          ELSE LET w == AddGroup(acc, i, g)
               IN IF by < 128 THEN <<"ok", w, p + 1>> ELSE UVarAt(p + 1, i + 1, w)
ReadUVar(p) == UVarAt(p, 0, WZero)

NoHeader == [algo |-> 0, seg |-> FALSE, more |-> FALSE, nops |-> WZero, nadd |-> 0, osz |-> 0]

DecInit ==
  d = [ph |-> "header", lvl |-> 0, pos |-> 0, bpos |-> 0, buf |-> <<>>,
       h |-> NoHeader, oh |-> NoHeader, first |-> 0,
       k |-> WZero, sum |-> 0, adds |-> 0, dA |-> WZero, oA |-> WZero, ops |-> <<>>,
       inf |-> 0, secs |-> <<>>, out |-> <<>>, dOk |-> TRUE, oOk |-> TRUE, iOk |-> TRUE,
       parse |-> "run", lax |-> FALSE, why |-> ""]

Bad(w)  == d' = [d EXCEPT !.ph = "stop", !.parse = "bad",  !.why = w]
Free(w) == d' = [d EXCEPT !.ph = "stop", !.parse = "free", !.why = w]

FieldOk(w) == FitsU32(w)

StartOps(dd, h) == [dd EXCEPT !.ph = "op", !.h = h, !.k = WZero, !.sum = 0, !.adds = 0,
                              !.dA = WZero, !.oA = WZero, !.ops = <<>>]

-----------------------------------------------------------------------------
(* Section header.  Level 1 headers belong to the patch that a section      *)
(* compressed with algorithm 1 is.                                          *)
ReadHeader ==
  /\ d.ph = "header"
  /\ UNCHANGED cid
  /\ IF d.pos + 1 > Limit THEN Bad("eof in header")
     ELSE
     LET cb   == At(d.pos + 1)
         algo == (cb \div 8) % 8
         seg  == (cb \div 64) % 2 = 1
         more == cb >= 128
         f1   == ReadUVar(d.pos + 1)
         f2   == IF f1[1] = "ok" THEN ReadUVar(f1[3]) ELSE f1
         f3   == IF seg /\ f2[1] = "ok" THEN ReadUVar(f2[3]) ELSE f2
     IN IF f3[1] # "ok" THEN Bad("header field")
        ELSE IF ~FieldOk(f1[2]) \/ ~FieldOk(f2[2]) \/ ~FieldOk(f3[2]) THEN Bad("field exceeds 32 bits")
        ELSE LET nadd == IF seg THEN f2[2] ELSE WZero
                 outw == IF seg THEN WAdd(f2[2], f3[2]) ELSE f3[2]
             IN IF ~FitsNat(outw) \/ ~FitsNat(nadd) THEN Bad("section too large")
                ELSE IF ToNat(outw) > MaxSection THEN Bad("section too large")
                ELSE
                LET h == [algo |-> algo, seg |-> seg, more |-> more, nops |-> f1[2],
                          nadd |-> ToNat(nadd), osz |-> ToNat(outw)]
                    dd == [d EXCEPT !.pos = f3[3], !.lax = d.lax \/ (cb % 8 # 0)]
                IN CASE d.lvl = 1 /\ algo # 0 -> Free("nested compression")
                     [] algo >= 4 -> Free("unassigned algorithm")
                     [] d.lvl = 1 \/ algo = 0 -> d' = StartOps(dd, h)
                     [] algo = 1 -> d' = [dd EXCEPT !.lvl = 1, !.oh = h, !.buf = <<>>, !.iOk = TRUE, !.ph = "header"]
                     [] OTHER -> d' = [dd EXCEPT !.oh = h, !.ph = "inflate", !.inf = d.inf + 1]

(* A section compressed with zstd or brotli. *)
Inflate ==
  /\ d.ph = "inflate"
  /\ UNCHANGED cid
  /\ LET z == InflateOf(cid)[d.inf]
     IN CASE z.st = "trunc" -> Bad("truncated compressed section")
          [] z.st = "bad"   -> Free("damaged compressed section")
          [] OTHER -> d' = StartOps([d EXCEPT !.pos = d.pos + z.used, !.lvl = 2, !.bpos = 0, !.buf = z.data], d.oh)

-----------------------------------------------------------------------------
(* Operations *)

(* The size of the operation whose op byte is at position p: <<"ok", n, end>> *)
SizeAt(t, sv, p) ==
  CASE sv \in 1..62 -> <<"ok", sv, p>>
    [] t = "R"      -> <<"bad">>
    [] sv = 63      -> IF p + 1 > Limit THEN <<"eof">> ELSE <<"ok", At(p + 1) + 62, p + 1>>
    [] OTHER        -> IF p + 2 > Limit THEN <<"eof">>
                       ELSE LET n == At(p + 1) + 256 * At(p + 2)
                            IN IF n = 0 THEN <<"zero">> ELSE <<"ok", n, p + 2>>

TypeOf(ob) == CASE ob < 64 -> "D" [] ob \in 64..127 -> "O" [] ob \in 128..191 -> "A" [] OTHER -> "R"

(* perform an operation on an output sequence; the flags say whether it was possible *)
Perform(dd, op) ==
  LET cur == IF dd.lvl = 1 THEN dd.buf ELSE dd.out
      srcBytes == IF dd.lvl = 1 THEN <<>> ELSE SrcOf(cid)
      has == dd.lvl # 1 /\ HasSrc(cid)
      at == CASE op.t = "D" -> WSub(op.a, SrcBaseOf(cid))
              [] op.t = "O" -> IF dd.lvl = 1 THEN op.a ELSE WSub(op.a, OutBaseOf(cid))
              [] OTHER -> WZero
      dBad == op.t = "D" /\ (~has \/ ~InRange(at, op.n, Len(srcBytes)))
      oBad == op.t = "O" /\ ~InRange(at, op.n, Len(cur))
      new == CASE op.t = "A" -> op.b
               [] op.t = "R" -> [i \in 1..op.n |-> op.c]
               [] op.t = "D" -> Slice(srcBytes, ToNat(at), op.n)
               [] op.t = "O" -> Slice(cur, ToNat(at), op.n)
      before == IF dd.lvl = 1 THEN dd.iOk ELSE dd.dOk /\ dd.oOk
      ext == IF before /\ ~dBad /\ ~oBad THEN cur \o new ELSE cur
  IN IF dd.lvl = 1 THEN [dd EXCEPT !.buf = ext, !.iOk = @ /\ ~dBad /\ ~oBad]
     ELSE [dd EXCEPT !.out = ext, !.dOk = @ /\ ~dBad, !.oOk = @ /\ ~oBad]

MoreOps == d.k # d.h.nops

ReadOp ==
  /\ d.ph = "op" /\ MoreOps
  /\ UNCHANGED cid
  /\ IF Cur + 1 > Limit THEN Bad("eof in operations")
     ELSE
     LET ob == At(Cur + 1)
         t  == TypeOf(ob)
         sz == SizeAt(t, ob % 64, Cur + 1)
     IN IF sz[1] # "ok" THEN Bad("size " \o sz[1])
        ELSE IF d.sum + sz[2] > d.h.osz THEN Bad("operations exceed output size")
        ELSE
        LET n  == sz[2]
            p  == sz[3]
            dd == [d EXCEPT !.k = WAdd(@, WOne), !.sum = @ + n]
        IN CASE t = "R" ->
                  IF p + 1 > Limit THEN Bad("eof in run")
                  ELSE d' = MoveTo([dd EXCEPT !.ops = Append(@, Run(At(p + 1), n))], p + 1)
             [] t = "A" ->
                  IF d.h.seg THEN d' = MoveTo([dd EXCEPT !.ops = Append(@, [t |-> "A", n |-> n]), !.adds = @ + n], p)
                  ELSE IF p + n > Limit THEN Bad("eof in add")
                  ELSE d' = MoveTo([dd EXCEPT !.ops = Append(@, Add([i \in 1..n |-> At(p + i)])), !.adds = @ + n], p + n)
             [] OTHER ->
                  LET v == ReadUVar(p)
                  IN IF v[1] # "ok" THEN Bad("address " \o v[1])
                     ELSE LET a == AddrMove(IF t = "D" THEN d.dA ELSE d.oA, UnZigZag(v[2]))
                              dm == IF t = "D" THEN [dd EXCEPT !.dA = a] ELSE [dd EXCEPT !.oA = a]
                          IN d' = MoveTo([dm EXCEPT !.ops = Append(@, [t |-> t, a |-> a, n |-> n])], v[3])

(* All operations of the section are read: check the header's claims and fetch
   the add bytes of a segregated section. *)
RECURSIVE FillAdds(_, _, _)
FillAdds(ops, i, p) ==
  IF i > Len(ops) THEN <<>>
  ELSE IF ops[i].t = "A" /\ d.h.seg
       THEN <<Add([j \in 1..ops[i].n |-> At(p + j)])>> \o FillAdds(ops, i + 1, p + ops[i].n)
       ELSE <<ops[i]>> \o FillAdds(ops, i + 1, p)

CloseOps ==
  /\ d.ph = "op" /\ ~MoreOps
  /\ UNCHANGED cid
  /\ IF d.sum # d.h.osz THEN Bad("operations fall short of output size")
     ELSE IF d.h.seg /\ d.adds # d.h.nadd THEN Bad("add byte count")
     ELSE IF d.h.seg /\ Cur + d.adds > Limit THEN Bad("eof in add bytes")
     ELSE LET full == FillAdds(d.ops, 1, Cur)
              dd == MoveTo([d EXCEPT !.ops = full, !.ph = "perform", !.k = WZero], IF d.h.seg THEN Cur + d.adds ELSE Cur)
          IN d' = dd

(* Perform the operations of the section, in order. *)
PerformAll ==
  /\ d.ph = "perform"
  /\ UNCHANGED cid
  /\ LET dd == FoldLeft(Perform, d, d.ops)
     IN d' = [dd EXCEPT !.ph = "close"]

CloseSection ==
  /\ d.ph = "close"
  /\ UNCHANGED cid
  /\ CASE d.lvl = 1 /\ ~d.iOk -> Bad("inner patch cannot be performed")
       [] d.lvl = 1 /\ d.h.more -> d' = [d EXCEPT !.ph = "header"]
       [] d.lvl = 1 -> d' = StartOps([d EXCEPT !.lvl = 2, !.bpos = 0], d.oh)
       [] d.lvl = 2 /\ d.bpos # Len(d.buf) -> Bad("compressed section holds more than its operations")
       [] OTHER ->
            LET sec == [algo |-> d.h.algo, seg |-> d.h.seg, more |-> d.h.more, nops |-> Len(d.ops),
                        nadd |-> d.adds, osz |-> d.h.osz, ops |-> d.ops]
            IN d' = [d EXCEPT !.secs = Append(@, sec), !.lvl = 0, !.buf = <<>>,
                              !.ph = IF d.h.more THEN "header" ELSE "stop",
                              !.parse = IF d.h.more THEN "run" ELSE "ok"]

DecNext == ReadHeader \/ Inflate \/ ReadOp \/ CloseOps \/ PerformAll \/ CloseSection

Stopped == d.ph = "stop"

AllOps == FlattenSeq([i \in 1..Len(d.secs) |-> d.secs[i].ops])

(* What an application of the whole patch must do. *)
ApplyVerdict ==
  CASE d.parse = "bad"  -> "reject"
    [] d.parse = "free" -> "free"
    [] ~d.dOk \/ ~d.oOk -> "reject"
    [] d.lax -> "maybe"
    [] OTHER -> "accept"

(* What reading without performing must do. *)
ReadVerdict ==
  CASE d.parse = "bad"  -> "reject"
    [] d.parse = "free" -> "free"
    [] d.lax -> "maybe"
    [] OTHER -> "accept"

(* does a copy reach past the last 64-bit address? *)
PastEnd(a, n) == a[2] = 65535 /\ a[3] = 65535 /\ a[4] = 65535 /\ a[1] + n >= 65536

(* What extraction (which also checks output copies) must do.  Whether it
   notices that a copy reaches outside of the unknown source is impossible. *)
ExtractVerdict(oBad) ==
  CASE d.parse = "bad"  -> "reject"
    [] d.parse = "free" -> "free"
    [] oBad -> "reject"
    [] d.lax \/ \E i \in 1..Len(AllOps) : AllOps[i].t = "D" /\ PastEnd(AllOps[i].a, AllOps[i].n) -> "maybe"
    [] OTHER -> "accept"

(* Is some output copy of the whole list impossible, whatever the source? *)
OutputCopyBad(ops) ==
  FoldLeft(LAMBDA acc, op : <<acc[1] \/ (op.t = "O" /\ ~InRange(WSub(op.a, OutBaseOf(cid)), op.n, acc[2])), acc[2] + OpLen(op)>>,
           <<FALSE, 0>>, ops)[1]
=============================================================================
