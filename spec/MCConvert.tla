------------------------------ MODULE MCConvert ------------------------------
(***************************************************************************)
(* Converting long VCDIFF instructions: an instruction becomes pieces no   *)
(* longer than an operation may be, pieces are collected in sections no    *)
(* larger than a section may be, a section is closed when the next piece   *)
(* does not fit and the last one at the end.  A periodic copy of period p  *)
(* becomes pieces of at most p, all from the start of the period, unless   *)
(* the period itself does not fit into an operation: then they follow the  *)
(* output.                                                                 *)
(*                                                                         *)
(* Content is modelled by labels: `meant` is what the instructions say by  *)
(* the rule of VCDIFF (byte by byte), `out` what the pieces produce by the *)
(* rule of this format (the bytes copied must exist when the piece starts).*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Max, Inst, RunMax, Periods, MaxInsts, Small
VARIABLES insts, meant, out, cur, secs, left, from, step, closed, fills
vars == <<insts, meant, out, cur, secs, left, from, step, closed, fills>>
Min(a, b) == IF a < b THEN a ELSE b
Kinds == {[k |-> "add", p |-> 0], [k |-> "run", p |-> 0], [k |-> "dict", p |-> 0], [k |-> "copy", p |-> 0]} \cup {[k |-> "seq", p |-> p] : p \in Periods}
RECURSIVE Period(_, _, _)
Period(o, p, n) == IF n = 0 THEN o ELSE Period(Append(o, o[Len(o) + 1 - p]), p, n - 1)
Means(o, i, n) ==
  CASE i.k = "add" -> o \o [j \in 1..n |-> <<"a", Len(o) + j>>]
    [] i.k = "run" -> o \o [j \in 1..n |-> <<"r", Len(insts)>>]
    [] i.k = "dict" -> o \o [j \in 1..n |-> <<"d", j>>]
    [] i.k = "copy" -> o \o SubSeq(o, 1, n)
    [] OTHER -> Period(o, i.p, n)
Init == /\ insts = <<>> /\ meant = <<>> /\ out = <<>> /\ cur = 0 /\ secs = <<>> /\ left = 0 /\ from = 0
        /\ step = [k |-> "none", p |-> 0] /\ closed = FALSE /\ fills = 0
(* the next instruction: a small one, or one that would end around the end of the section *)
Instr ==
  /\ left = 0 /\ ~closed /\ Len(insts) < MaxInsts
  /\ \E i \in Kinds, d \in {-2, -1, 0, 1} :
       LET n == IF d = -2 THEN Small ELSE Max - cur + d
       IN /\ n > 0
          /\ d # -2 => fills = 0
          /\ i.k = "copy" => n <= Len(meant)
          /\ i.k = "seq" => i.p <= Len(meant) /\ n > i.p
          /\ Len(insts) = 2 => d = -2 /\ i.k \in {"add", "copy"}
          /\ insts' = Append(insts, [k |-> i.k, p |-> i.p, d |-> d])
          /\ step' = i /\ left' = n
          /\ meant' = Means(meant, i, n)
          /\ from' = IF i.k = "seq" THEN Len(meant) - i.p ELSE 0
          /\ fills' = IF d = -2 THEN fills ELSE fills + 1
  /\ UNCHANGED <<out, cur, secs, closed>>
Size == LET lim == IF step.k = "run" THEN RunMax ELSE Inst
        IN IF step.k = "seq" THEN Min(Min(left, step.p), lim) ELSE Min(left, lim)
(* what a piece of n produces *)
Piece(n) ==
  CASE step.k = "add" -> [j \in 1..n |-> <<"a", Len(out) + j>>]
    [] step.k = "run" -> [j \in 1..n |-> <<"r", Len(insts) - 1>>]
    [] step.k = "dict" -> [j \in 1..n |-> <<"d", from + j>>]
    [] OTHER -> SubSeq(out, from + 1, from + n)
Convert ==
  /\ left > 0
  /\ LET n == Size
         full == cur + n > Max
     IN /\ out' = out \o Piece(n)
        /\ left' = left - n
        /\ from' = IF step.k \in {"dict", "copy"} \/ (step.k = "seq" /\ step.p > Inst) THEN from + n ELSE from
        /\ secs' = IF full THEN Append(secs, [n |-> cur, more |-> TRUE]) ELSE secs
        /\ cur' = IF full THEN n ELSE cur + n
  /\ UNCHANGED <<insts, meant, step, closed, fills>>
Close ==
  /\ left = 0 /\ ~closed /\ insts # <<>>
  /\ fills > 0 => PrintT(<<"CASE", ToJson([insts |-> insts])>>)
  /\ closed' = TRUE /\ secs' = Append(secs, [n |-> cur, more |-> FALSE])
  /\ UNCHANGED <<insts, meant, out, cur, left, from, step, fills>>
Next == Instr \/ Convert \/ Close \/ (closed /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Same == out = SubSeq(meant, 1, Len(out))
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s).n + Total(Tail(s))
Sections ==
  /\ \A i \in 1..Len(secs) : secs[i].n \in 1..Max /\ (secs[i].more <=> ~(closed /\ i = Len(secs)))
  /\ Total(secs) + (IF closed THEN 0 ELSE cur) = Len(out)
Complete == closed => out = meant
Exists == left > 0 /\ step.k \in {"copy", "seq"} => from + Size <= Len(out)
=============================================================================
