------------------------------- MODULE SmdEncoder -------------------------------
(***************************************************************************)
(* The encoder as a state machine over sequences of symbols: it walks the  *)
(* target and at every position may choose any operation whose guard       *)
(* holds, unless it is greedy: then it takes a longest match, and literals *)
(* only where there is none of at least MinMatch.  Operations never cross  *)
(* the end of a section.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANTS Greedy, MinMatch
VARIABLE e
(* c = [src, trg, useSrc, useTrg, secMax] *)
EInit(c) == e = [c |-> c, out |-> <<>>, lit |-> 0, cps |-> 0, sec |-> 0, secs |-> <<>>, kinds |-> {}, closed |-> FALSE]
Pos == Len(e.out)
Left == Len(e.c.trg) - Pos
Room == IF e.c.secMax - e.sec < Left THEN e.c.secMax - e.sec ELSE Left
Want(n) == SubSeq(e.c.trg, Pos + 1, Pos + n)
At(s, a, n) == SubSeq(s, a + 1, a + n)

(* the guards: what may be copied *)
FromSrc(n) == {a \in 0..(Len(e.c.src) - n) : e.c.useSrc /\ n <= Len(e.c.src) /\ At(e.c.src, a, n) = Want(n)}
FromOut(n) == {a \in 0..(Pos - n) : n <= Pos /\ At(e.out, a, n) = Want(n) /\ (e.c.useTrg \/ \A i \in 1..n : Want(n)[i] = Want(n)[1])}
IsRun(n) == \A i \in 1..n : Want(n)[i] = Want(n)[1]

Put(bytes, kind, lits) ==
  e' = [e EXCEPT !.out = @ \o bytes, !.lit = @ + lits, !.cps = @ + IF kind = "A" THEN 0 ELSE 1, !.sec = @ + Len(bytes), !.kinds = @ \cup {kind}]
Matches(n) == FromSrc(n) # {} \/ FromOut(n) # {} \/ (n >= 2 /\ IsRun(n))
Best == CHOOSE n \in 0..Room : (n = 0 \/ Matches(n)) /\ \A m \in (n + 1)..Room : ~Matches(m)

Copying(n) ==
  \/ \E a \in FromSrc(n) : Put(At(e.c.src, a, n), "D", 0)
  \/ \E a \in FromOut(n) : Put(At(e.out, a, n), "O", 0)
  \/ n >= 2 /\ IsRun(n) /\ Put([i \in 1..n |-> Want(n)[1]], "R", 0)
Literal(n) == Put(Want(n), "A", n)

Emit ==
  /\ ~e.closed /\ Room > 0
  /\ IF Greedy THEN IF Best >= MinMatch THEN Copying(Best) ELSE Literal(1)
     ELSE \E n \in 1..Room : Copying(n) \/ Literal(n)
CloseSection ==
  /\ ~e.closed
  /\ IF Left = 0 THEN e' = [e EXCEPT !.secs = Append(@, [n |-> e.sec, more |-> FALSE]), !.sec = 0, !.closed = TRUE]
     ELSE Room = 0 /\ e' = [e EXCEPT !.secs = Append(@, [n |-> e.sec, more |-> TRUE]), !.sec = 0]
ENext == Emit \/ CloseSection

Prefix == e.out = SubSeq(e.c.trg, 1, Pos)
Reconstructs == e.closed => e.out = e.c.trg
Sections ==
  /\ \A i \in 1..Len(e.secs) : e.secs[i].n <= e.c.secMax /\ e.secs[i].more = ~(e.closed /\ i = Len(e.secs))
  /\ FoldLeft(LAMBDA x, s : x + s.n, 0, e.secs) + e.sec = Pos
HonoursSwitches == /\ ~e.c.useSrc => "D" \notin e.kinds
                   /\ e.lit <= Pos
=============================================================================
