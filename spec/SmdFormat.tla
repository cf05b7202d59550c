------------------------------ MODULE SmdFormat ------------------------------
(***************************************************************************)
(* The data of the SMDIFF format: operations, their limits, what they      *)
(* denote, and every legal way of writing them down (spec.md section 4).   *)
(*                                                                         *)
(* Operations are records:                                                 *)
(*   [t |-> "A", b |-> bytes]              ADD                             *)
(*   [t |-> "R", c |-> byte, n |-> len]    RUN                             *)
(*   [t |-> "D", a |-> word, n |-> len]    COPY from the dictionary        *)
(*   [t |-> "O", a |-> word, n |-> len]    COPY from the output            *)
(* Addresses are 64-bit words (Word64), lengths are numbers.               *)
(***************************************************************************)
EXTENDS Word64, FiniteSets, SequencesExt

MaxRun     == 62
MaxInst    == 65535
MaxSection == 16777215

Add(b)      == [t |-> "A", b |-> b]
Run(c, n)   == [t |-> "R", c |-> c, n |-> n]
CopyD(a, n) == [t |-> "D", a |-> a, n |-> n]
CopyO(a, n) == [t |-> "O", a |-> a, n |-> n]

IsAdd(op)  == op.t = "A"
IsRun(op)  == op.t = "R"
IsCopy(op) == op.t \in {"D", "O"}

OpLen(op) == IF op.t = "A" THEN Len(op.b) ELSE op.n

(* a length the format can express *)
LegalLen(op) == OpLen(op) \in 1..(IF op.t = "R" THEN MaxRun ELSE MaxInst)

SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)

OutLen(ops) == FoldLeft(LAMBDA x, op : x + OpLen(op), 0, ops)
AddLen(ops) == FoldLeft(LAMBDA x, op : x + (IF op.t = "A" THEN Len(op.b) ELSE 0), 0, ops)
CountT(ops, t) == FoldLeft(LAMBDA x, op : x + (IF op.t = t THEN 1 ELSE 0), 0, ops)
LenT(ops, ts) == FoldLeft(LAMBDA x, op : x + (IF op.t \in ts THEN OpLen(op) ELSE 0), 0, ops)

(* a + n as a number, when it can be one; -1 otherwise (far outside of anything) *)
EndOf(a, n) == IF FitsNat(a) /\ ToNat(a) < 1000000000 THEN ToNat(a) + n ELSE -1
InRange(a, n, limit) == EndOf(a, n) # -1 /\ EndOf(a, n) <= limit

-----------------------------------------------------------------------------
(* Denotation.  An output byte is an atom: a literal byte b (0..255), or    *)
(* 256 + i for "the byte at offset i of the source", whatever that is.      *)

Slice(s, from, n) == SubSeq(s, from + 1, from + n)      \* from is 0-based

SrcAtoms(from, n) == [i \in 1..n |-> 256 + from + i - 1]

(* what one operation appends to the output denoted so far *)
OpDen(den, op) ==
  CASE op.t = "A" -> op.b
    [] op.t = "R" -> [i \in 1..op.n |-> op.c]
    [] op.t = "D" -> SrcAtoms(ToNat(op.a), op.n)
    [] op.t = "O" -> Slice(den, ToNat(op.a), op.n)

(* can the operation be performed with den already produced and srcLen bytes of source? *)
Performable(den, op, srcLen) ==
  CASE op.t = "D" -> InRange(op.a, op.n, srcLen)
    [] op.t = "O" -> InRange(op.a, op.n, Len(den))
    [] OTHER -> TRUE

(* The denotation of a list; <<FALSE, _>> when some operation cannot be performed. *)
DenStep(srcLen, acc, op) ==
  IF acc[1] /\ Performable(acc[2], op, srcLen)
  THEN <<TRUE, acc[2] \o OpDen(acc[2], op)>>
  ELSE <<FALSE, acc[2]>>

DenFrom(den, ops, srcLen) == FoldLeft(LAMBDA acc, op : DenStep(srcLen, acc, op), <<TRUE, den>>, ops)
Den(ops, srcLen) == DenFrom(<<>>, ops, srcLen)

(* the bytes denoted, for a given source *)
Resolve(den, src) == [i \in 1..Len(den) |-> IF den[i] < 256 THEN den[i] ELSE src[den[i] - 255]]

DependsOnSrc(den) == \E i \in 1..Len(den) : den[i] >= 256

(* d2's source is d1's output *)
Compose(d2, d1) == [i \in 1..Len(d2) |-> IF d2[i] < 256 THEN d2[i] ELSE d1[d2[i] - 255]]

Composable(d2, d1) == \A i \in 1..Len(d2) : d2[i] < 256 \/ d2[i] - 255 <= Len(d1)

-----------------------------------------------------------------------------
(* Bytes.                                                                   *)

Flag(t) == CASE t = "D" -> 0 [] t = "O" -> 64 [] t = "A" -> 128 [] t = "R" -> 192

(* Size forms.  "in": in the op byte, 1..62.  "u8": one byte more, holding  *)
(* length - 62.  "u16": two bytes more, little endian.                      *)
SizeForms(t, n) ==
  (IF n \in 1..62 THEN {"in"} ELSE {})
  \cup (IF t # "R" /\ n \in 62..317 THEN {"u8"} ELSE {})
  \cup (IF t # "R" THEN {"u16"} ELSE {})

ShortestForm(n) == IF n <= 62 THEN "in" ELSE IF n <= 317 THEN "u8" ELSE "u16"

OpHead(t, n, form) ==
  CASE form = "in"  -> <<Flag(t) + n>>
    [] form = "u8"  -> <<Flag(t) + 63, n - 62>>
    [] form = "u16" -> <<Flag(t), (n % 256), n \div 256>>

(* enc = [form, pad]: the size form, and how many bytes to pad an address to *)
VarintLens(w) == GroupCount(w)..10

OpBytes(op, diff, form, pad, inter) ==
  OpHead(op.t, OpLen(op), form)
  \o CASE op.t = "A" -> IF inter THEN op.b ELSE <<>>
       [] op.t = "R" -> <<op.c>>
       [] OTHER -> UVarintPadded(ZigZag(diff), IF pad > GroupCount(ZigZag(diff)) THEN pad ELSE GroupCount(ZigZag(diff)))

(* the address differences of a section's copies, per kind, starting from 0 *)
RECURSIVE DiffsFrom(_, _, _, _)
DiffsFrom(ops, i, d, o) ==
  IF i > Len(ops) THEN <<>>
  ELSE LET op == ops[i] IN
       CASE op.t = "D" -> <<AddrDiff(d, op.a)>> \o DiffsFrom(ops, i + 1, op.a, o)
         [] op.t = "O" -> <<AddrDiff(o, op.a)>> \o DiffsFrom(ops, i + 1, d, op.a)
         [] OTHER -> <<WZero>> \o DiffsFrom(ops, i + 1, d, o)
Diffs(ops) == DiffsFrom(ops, 1, WZero, WZero)

ControlByte(algo, seg, more) == (IF more THEN 128 ELSE 0) + (IF seg THEN 64 ELSE 0) + 8 * algo

HeaderBytes(algo, seg, more, nops, nadd, outsize, pad) ==
  LET V(n) == LET w == FromNat(n) IN UVarintPadded(w, IF pad > GroupCount(w) THEN pad ELSE GroupCount(w))
  IN <<ControlByte(algo, seg, more)>> \o V(nops)
     \o (IF seg THEN V(nadd) \o V(outsize - nadd) ELSE V(outsize))

(* the operations part of a section; forms[i], pads[i] choose op i's encoding *)
BodyBytes(ops, seg, forms, pads) ==
  LET ds == Diffs(ops)
      heads == [i \in 1..Len(ops) |-> OpBytes(ops[i], ds[i], forms[i], pads[i], ~seg)]
      adds == IF seg THEN [i \in 1..Len(ops) |-> IF ops[i].t = "A" THEN ops[i].b ELSE <<>>] ELSE <<>>
  IN FlattenSeq(heads) \o FlattenSeq(adds)

Shortest(ops) == [i \in 1..Len(ops) |-> ShortestForm(OpLen(ops[i]))]
NoPads(ops) == [i \in 1..Len(ops) |-> 0]

(* an uncompressed section, written the one way the writer is meant to write it *)
SectionBytes(ops, seg, more) ==
  HeaderBytes(0, seg, more, Len(ops), AddLen(ops), OutLen(ops), 0)
  \o BodyBytes(ops, seg, Shortest(ops), NoPads(ops))
=============================================================================
