------------------------------ MODULE SmdVersions ------------------------------
(***************************************************************************)
(* Where targets come from: an author who edits a file made of blocks.     *)
(* Blocks are numbers: 0 a run of one byte; 1.. the blocks of the source;  *)
(* 11.. blocks that are new; 100 + b is block b with one byte changed;     *)
(* 200 + b its first half, 300 + b its second half.                        *)
(* new counts the blocks added and bytes changed, seams the places where   *)
(* two pieces meet that did not meet before.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS MaxBlocks, MaxEdits
VARIABLE v
(* source layouts: every sequence whose blocks appear in the order of their numbers *)
Layouts == {s \in UNION {[1..n -> 0..n] : n \in 0..MaxBlocks} :
              \A i \in 1..Len(s) : s[i] = 0 \/ s[i] = 1 \/ \E j \in 1..(i - 1) : s[j] = s[i] - 1 \/ s[j] = s[i]}
VInit == \E s \in Layouts : v = [src |-> s, trg |-> s, edits |-> 0, fresh |-> 0, touched |-> 0, seams |-> 0]
Ins(s, i, b) == SubSeq(s, 1, i) \o <<b>> \o SubSeq(s, i + 1, Len(s))
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Whole(b) == b \in 1..99
Edit ==
  /\ v.edits < MaxEdits
  /\ LET t == v.trg
         To(new, fr, to, se) == v' = [v EXCEPT !.trg = new, !.edits = @ + 1, !.fresh = @ + fr, !.touched = @ + to, !.seams = @ + se]
     IN \/ \E i \in 0..Len(t) : To(Ins(t, i, 11 + v.fresh), 1, 0, 2)
        \/ \E i \in 0..Len(t) : To(Ins(t, i, 0), 0, 0, 2)
        \/ \E i \in 1..Len(t) : To(Del(t, i), 0, 0, 1)
        \/ \E i \in 1..Len(t), j \in 0..Len(t) : To(Ins(t, j, t[i]), 0, 0, 2)
        \/ \E i \in 1..Len(t) : To(Append(Del(t, i), t[i]), 0, 0, 2)
        \/ \E i \in 1..Len(t) : Whole(t[i]) /\ To([t EXCEPT ![i] = 100 + t[i]], 0, 1, 2)
        \/ \E i \in 1..Len(t) : Whole(t[i]) /\ To([t EXCEPT ![i] = 200 + t[i]], 0, 0, 1)
        \/ \E i \in 1..Len(t) : Whole(t[i]) /\ To([t EXCEPT ![i] = 300 + t[i]], 0, 0, 1)
=============================================================================
