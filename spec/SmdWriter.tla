------------------------------- MODULE SmdWriter -------------------------------
(***************************************************************************)
(* The writing side as a state machine: an author who composes a patch     *)
(* operation by operation and section by section, with every freedom the   *)
(* document leaves: which of the size forms, how many bytes an address     *)
(* takes, where sections end, and how each section is laid out.            *)
(*                                                                         *)
(* A written section is [algo, seg, more, ops, forms, pads, hpad]; its bytes     *)
(* are SectionEnc(s).                                                      *)
(***************************************************************************)
EXTENDS SmdFormat

CONSTANTS Ops,        \* the operations an author may want to write
          Algos,      \* 0: plain sections; 1: sections whose body is itself written as a patch
          Pads,       \* byte counts addresses may be padded to (0: shortest)
          HPads,      \* the same for header fields
          AnyForm,    \* any legal size form (TRUE), or the shortest
          MaxOps,     \* operations per patch
          MaxSecs     \* sections per patch

VARIABLE w
NoSection == [ops |-> <<>>, forms |-> <<>>, pads |-> <<>>]
WInit == w = [secs |-> <<>>, cur |-> NoSection, n |-> 0, closed |-> FALSE]

WriteOp ==
  /\ ~w.closed /\ w.n < MaxOps
  /\ \E op \in Ops :
     \E f \in (IF AnyForm THEN SizeForms(op.t, OpLen(op)) ELSE {ShortestForm(OpLen(op))}) :
     \E p \in (IF IsCopy(op) THEN Pads ELSE {0}) :
       w' = [w EXCEPT !.n = @ + 1,
                      !.cur = [ops |-> Append(@.ops, op), forms |-> Append(@.forms, f), pads |-> Append(@.pads, p)]]

EndSection ==
  /\ ~w.closed /\ Len(w.secs) < MaxSecs
  /\ \E seg \in BOOLEAN, more \in BOOLEAN, hp \in HPads, al \in Algos :
       /\ more => Len(w.secs) + 1 < MaxSecs
       /\ w' = [w EXCEPT !.secs = Append(@, [algo |-> al, seg |-> seg, more |-> more, ops |-> w.cur.ops, forms |-> w.cur.forms, pads |-> w.cur.pads, hpad |-> hp]),
                         !.cur = NoSection, !.closed = ~more]

WNext == WriteOp \/ EndSection

(* the simplest patch that produces given bytes *)
AsPatch(b) == SectionBytes(IF b = <<>> THEN <<>> ELSE <<Add(b)>>, FALSE, FALSE)
SectionEnc(s) ==
  LET body == BodyBytes(s.ops, s.seg, s.forms, s.pads) IN
  HeaderBytes(s.algo, s.seg, s.more, Len(s.ops), AddLen(s.ops), OutLen(s.ops), s.hpad)
  \o (IF s.algo = 1 THEN AsPatch(body) ELSE body)
Written == FlattenSeq([i \in 1..Len(w.secs) |-> SectionEnc(w.secs[i])])
Canonical == FlattenSeq([i \in 1..Len(w.secs) |-> SectionBytes(w.secs[i].ops, w.secs[i].seg, w.secs[i].more)])
WrittenOps == FlattenSeq([i \in 1..Len(w.secs) |-> w.secs[i].ops])
=============================================================================
