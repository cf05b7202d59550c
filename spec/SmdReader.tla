------------------------------ MODULE SmdReader ------------------------------
(***************************************************************************)
(* Iterating over the sections of a stream: patches one behind the other,  *)
(* and possibly something else behind the last of them.                    *)
(*                                                                         *)
(* The stream is seen as its sections, each with its "more" flag; a state  *)
(* says how many of them have been read and whether the iterator has ended.*)
(* An iterator hands out the next section (owned or borrowed, that makes   *)
(* no difference) until it has handed out a terminal one; from then on it  *)
(* reports the end and reads nothing.  Whoever takes the stream back finds *)
(* it right behind the sections that have been read: a new iterator may be *)
(* started there, or a section read without one.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Start == [at |-> 0, done |-> FALSE]

(* behind the last section nothing is promised *)
CanCall(s, secs) == s.done \/ s.at < Len(secs)
(* index of the section handed out; 0: the end *)
Handed(s) == IF s.done THEN 0 ELSE s.at + 1
AfterCall(s, secs) == IF s.done THEN s ELSE [at |-> s.at + 1, done |-> ~secs[s.at + 1].more]

(* the stream is taken back, and a new iterator put on it *)
AfterReopen(s) == [s EXCEPT !.done = FALSE]
(* ... after one section was read directly *)
CanRaw(s, secs) == s.at < Len(secs)
AfterRaw(s) == [at |-> s.at + 1, done |-> FALSE]
=============================================================================
