----------------------------- MODULE SmdSections -----------------------------
(***************************************************************************)
(* Dividing a list of operations into sections.  An operation is a tuple   *)
(* <<type, length, fingerprint>>; what it does is of no concern here.      *)
(* The machine closes one section per step: any non-empty group of the     *)
(* operations that come next may be closed as long as it fits; the last    *)
(* one is the one with nothing behind it.  (The code closes a section when *)
(* the next operation does not fit; the properties do not depend on it.)   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS MaxInst, MaxSection
VARIABLES ops, req, at, groups

Effective(n) == IF n < MaxInst THEN MaxInst ELSE IF n > MaxSection THEN MaxSection ELSE n
LenOf(s) == FoldLeft(LAMBDA x, o : x + o[2], 0, s)
AddOf(s) == FoldLeft(LAMBDA x, o : x + (IF o[1] = "A" THEN o[2] ELSE 0), 0, s)
Header(s, more) == [nops |-> Len(s), osz |-> LenOf(s), nadd |-> AddOf(s), more |-> more]
Group(s, more) == [ops |-> s, h |-> Header(s, more)]

Fits(n) == at + n <= Len(ops) /\ LenOf(SubSeq(ops, at + 1, at + n)) <= Effective(req)
Finished == Len(groups) > 0 /\ ~groups[Len(groups)].h.more

CloseGroup(n) ==
  /\ ~Finished
  /\ n \in 1..(Len(ops) - at) \/ (n = 0 /\ Len(ops) = 0)
  /\ Fits(n)
  /\ groups' = Append(groups, Group(SubSeq(ops, at + 1, at + n), at + n < Len(ops)))
  /\ at' = at + n
  /\ UNCHANGED <<ops, req>>

(* the property of the finished partition *)
Concat(gs) == FlattenSeq([i \in 1..Len(gs) |-> gs[i].ops])
IsPartition(gs) ==
  /\ Len(gs) >= 1
  /\ Concat(gs) = ops
  /\ \A i \in 1..Len(gs) : /\ gs[i].h = Header(gs[i].ops, i < Len(gs))
                            /\ gs[i].h.osz <= Effective(req)
                            /\ (gs[i].ops # <<>> \/ ops = <<>>)
=============================================================================
