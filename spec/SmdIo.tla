--------------------------------- MODULE SmdIo ---------------------------------
(***************************************************************************)
(* Caller's streams.  An operation is a program of transfers on them; each *)
(* transfer moves n bytes (read, write) or one position (seek) and is made *)
(* of calls.  What a call does is the environment's choice:                *)
(*   F  everything asked for is transferred      S  only one byte          *)
(*   I  interrupted, nothing transferred         Z  nothing is transferred *)
(*   X  the call fails                                                     *)
(* The operation keeps calling until the transfer is complete; a failure   *)
(* ends it with "err".  What must be true however the environment chooses: *)
(* success means that every byte of every transfer went through, once and  *)
(* in order, and that no call failed.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

(* A stream as far as the operation can tell: its contents and position. *)
Stream(content) == [data |-> content, pos |-> 0]
Span(s, n) == SubSeq(s.data, s.pos + 1, IF s.pos + n > Len(s.data) THEN Len(s.data) ELSE s.pos + n)
Took(s, n) == [s EXCEPT !.pos = @ + n]
(* Writing b at the position: over what is there, longer if need be; a gap holds zeros. *)
Wrote(s, b) ==
  LET end == s.pos + Len(b)
      size == IF end > Len(s.data) THEN end ELSE Len(s.data)
  IN [data |-> [i \in 1..size |-> IF i > s.pos /\ i <= end THEN b[i - s.pos] ELSE IF i <= Len(s.data) THEN s.data[i] ELSE 0],
      pos |-> end]
Moved(s, p) == [s EXCEPT !.pos = p]
================================================================================
