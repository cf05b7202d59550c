----------------------------- MODULE WordMachine -----------------------------
(***************************************************************************)
(* Reading an integer as a state machine: one byte per step.  It stops     *)
(* with "ok" (value, bytes consumed), "eof" or "over" (does not fit into   *)
(* 64 bits, or is longer than 10 bytes).                                   *)
(***************************************************************************)
EXTENDS Word64
VARIABLES in,      \* the bytes
          r        \* [st, v, used]
Start == [st |-> "run", v |-> WZero, used |-> 0]
ReadByte ==
  /\ r.st = "run"
  /\ UNCHANGED in
  /\ r' = IF r.used = Len(in) THEN [r EXCEPT !.st = "eof"]
          ELSE LET by == in[r.used + 1]
                   g  == by % 128
                   i  == r.used
               IN IF i > 9 \/ ~GroupFits(i, g) \/ (i = 9 /\ by >= 128) THEN [r EXCEPT !.st = "over", !.used = @ + 1]
                  ELSE [st |-> IF by < 128 THEN "ok" ELSE "run", v |-> AddGroup(r.v, i, g), used |-> i + 1]
=============================================================================
