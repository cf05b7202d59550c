------------------------------- MODULE SmdSlice -------------------------------
(***************************************************************************)
(* A contiguous operation list, each operation with the output position it *)
(* takes effect at, and the part of it that covers a range of the output.  *)
(* What an operation produces at a position is its atom there.             *)
(***************************************************************************)
EXTENDS SmdFormat
(* entries are [p |-> position word, o |-> operation] *)
EndW(e) == WAdd(e.p, FromNat(OpLen(e.o)))
AtomOf(o, i) ==   \* i counts from 0
  CASE o.t = "A" -> <<"lit", o.b[i + 1]>>
    [] o.t = "R" -> <<"lit", o.c>>
    [] OTHER -> <<o.t, WAdd(o.a, FromNat(i))>>
Atoms(l) == FlattenSeq([k \in 1..Len(l) |-> [i \in 1..OpLen(l[k].o) |-> AtomOf(l[k].o, i - 1)]])
Total(l) == FoldLeft(LAMBDA x, e : x + OpLen(e.o), 0, l)
Contiguous(l) == \A k \in 1..(Len(l) - 1) : l[k + 1].p = EndW(l[k])
NonEmpty(l) == \A k \in 1..Len(l) : OpLen(l[k].o) >= 1

(* offset of the range start behind the start of the list; -1 when it lies before *)
OffsetIn(l, start) ==
  IF l = <<>> THEN -1
  ELSE LET w == WSub(start, l[1].p) IN IF WLt(start, l[1].p) \/ ~FitsNat(w) THEN -1 ELSE ToNat(w)
Covered(l, start, n) == LET off == OffsetIn(l, start) IN off # -1 /\ off + n <= Total(l)

(* index (from 1) of the operation that produces the byte at position pos, 0 if none *)
Controlling(l, pos) ==
  LET off == OffsetIn(l, pos)
  IN IF off = -1 \/ off >= Total(l) THEN 0
     ELSE CHOOSE k \in 1..Len(l) : LET before == Total(SubSeq(l, 1, k - 1)) IN before <= off /\ off < before + OpLen(l[k].o)

(* The exact slice: what is cut off at the front and at the back. *)
CutOp(o, skip, keep) ==
  CASE o.t = "A" -> Add(SubSeq(o.b, skip + 1, skip + keep))
    [] o.t = "R" -> Run(o.c, keep)
    [] OTHER -> [o EXCEPT !.a = WAdd(o.a, FromNat(skip)), !.n = keep]
RECURSIVE SliceFrom(_, _, _, _)
SliceFrom(l, k, off, n) ==   \* off: how far into operation k the range starts
  IF n = 0 THEN <<>>
  ELSE LET e == l[k]
           keep == IF OpLen(e.o) - off < n THEN OpLen(e.o) - off ELSE n
       IN <<[p |-> WAdd(e.p, FromNat(off)), o |-> CutOp(e.o, off, keep)]>> \o SliceFrom(l, k + 1, 0, n - keep)
ExactSlice(l, start, n) ==
  LET k == Controlling(l, start)
  IN SliceFrom(l, k, OffsetIn(l, start) - Total(SubSeq(l, 1, k - 1)), n)

(* what any exact slice must be, however it is cut *)
IsSlice(s, l, start, n) ==
  /\ NonEmpty(s) /\ Contiguous(s)
  /\ s # <<>> /\ s[1].p = start
  /\ Atoms(s) = SubSeq(Atoms(l), OffsetIn(l, start) + 1, OffsetIn(l, start) + n)
=============================================================================
