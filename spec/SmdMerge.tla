------------------------------- MODULE SmdMerge -------------------------------
(***************************************************************************)
(* Merging and rewriting as operations on operation lists.                 *)
(*                                                                         *)
(* A merge works from the newest patch back: what is held is a list that   *)
(* produces the final output from the oldest source merged so far.  Taking *)
(* up one more patch replaces every source copy by the part of the older   *)
(* patch that produces those bytes.  For this the older patch's own output *)
(* copies are first traced to what they copy (Flat).                       *)
(***************************************************************************)
EXTENDS SmdSlice

RECURSIVE PlaceAt(_, _)
PlaceAt(ops, p) ==
  IF ops = <<>> THEN <<>>
  ELSE <<[p |-> FromNat(p), o |-> Head(ops)]>> \o PlaceAt(Tail(ops), p + OpLen(Head(ops)))
Unplaced(l) == [i \in 1..Len(l) |-> l[i].o]
Part(flat, a, n) == Unplaced(ExactSlice(PlaceAt(flat, 0), a, n))

(* without output copies *)
Flat(ops) == FoldLeft(LAMBDA f, op : f \o (IF op.t = "O" THEN Part(f, op.a, op.n) ELSE <<op>>), <<>>, ops)

(* the newer list, over the source of the older *)
TakeUp(newer, older) ==
  LET f == Flat(older)
  IN FlattenSeq([i \in 1..Len(newer) |-> IF newer[i].t = "D" THEN Part(f, newer[i].a, newer[i].n) ELSE <<newer[i]>>])

Finished(ops) == CountT(ops, "D") = 0

-----------------------------------------------------------------------------
(* Rewriting: what a transcoder may do to a list without changing what it   *)
(* means.  Each rule takes a list and a place in it.                        *)
Swap(ops, i, k, new) == SubSeq(ops, 1, i - 1) \o new \o SubSeq(ops, i + k, Len(ops))
At0(ops, i) == OutLen(SubSeq(ops, 1, i - 1))

CanJoinAdds(ops, i) == i < Len(ops) /\ ops[i].t = "A" /\ ops[i + 1].t = "A" /\ OpLen(ops[i]) + OpLen(ops[i + 1]) <= MaxInst
JoinAdds(ops, i) == Swap(ops, i, 2, <<Add(ops[i].b \o ops[i + 1].b)>>)

CanJoinRuns(ops, i, max) == i < Len(ops) /\ ops[i].t = "R" /\ ops[i + 1].t = "R" /\ ops[i].c = ops[i + 1].c /\ ops[i].n + ops[i + 1].n <= max
JoinRuns(ops, i) == Swap(ops, i, 2, <<Run(ops[i].c, ops[i].n + ops[i + 1].n)>>)

CanRunOfAdd(ops, i) == ops[i].t = "A" /\ \A k \in 1..OpLen(ops[i]) : ops[i].b[k] = ops[i].b[1]
RunOfAdd(ops, i) == Swap(ops, i, 1, <<Run(ops[i].b[1], OpLen(ops[i]))>>)

(* two halves; the second of them may be a copy of the first when they agree *)
CanSplit(ops, i) == OpLen(ops[i]) >= 2
Split(ops, i, k) == Swap(ops, i, 1, <<CutOp(ops[i], 0, k), CutOp(ops[i], k, OpLen(ops[i]) - k)>>)
CanCopyRun(ops, i, k) == ops[i].t = "R" /\ k < ops[i].n /\ ops[i].n - k <= k
CopyRun(ops, i, k) == Swap(ops, i, 1, <<Run(ops[i].c, k), CopyO(FromNat(At0(ops, i)), ops[i].n - k)>>)
=============================================================================
