---------------------------------- MODULE MCIo ----------------------------------
(***************************************************************************)
(* Every behaviour of the environment against an operation that copies     *)
(* through streams the way applying, encoding and merging do: read a       *)
(* length, move in a second stream, read there, write to a third, move     *)
(* back in it and read what was just written.  Discipline "loop" completes *)
(* transfers; "once" trusts a single call, and is the control: it must be  *)
(* caught by the same invariant (OnceIsWrong is reachable).                *)
(* Each finished behaviour is emitted as a schedule for the real code.     *)
(***************************************************************************)
EXTENDS SmdIo, Json
CONSTANTS MaxCalls, Discipline
A == <<7, 8, 9>>
Prog == << [s |-> "p", k |-> "r", n |-> 2], [s |-> "d", k |-> "s", n |-> 1], [s |-> "d", k |-> "r", n |-> 2],
           [s |-> "o", k |-> "w", n |-> 2], [s |-> "o", k |-> "s", n |-> 0], [s |-> "o", k |-> "r", n |-> 1],
           [s |-> "o", k |-> "s", n |-> 2], [s |-> "o", k |-> "w", n |-> 1] >>
Want == <<8, 9, 8>>
VARIABLES st, pc, left, buf, res, sched, failed
vars == <<st, pc, left, buf, res, sched, failed>>
Init == /\ st = [p |-> Stream(A), d |-> Stream(A), o |-> Stream(<<>>)]
        /\ pc = 1 /\ left = Prog[1].n /\ buf = <<>> /\ res = "run" /\ sched = <<>> /\ failed = FALSE
T == Prog[pc]
Running == res = "run"
(* the transfer is over: on to the next one; a read starts with an empty buffer *)
Advance(s2, b2) ==
  /\ st' = s2
  /\ IF pc = Len(Prog) THEN res' = "ok" /\ UNCHANGED <<pc, left>> /\ buf' = b2
     ELSE /\ pc' = pc + 1 /\ left' = Prog[pc + 1].n /\ UNCHANGED res
          /\ buf' = IF Prog[pc + 1].k = "r" THEN <<>> ELSE b2
Part(k) ==  \* k of the left bytes go through
  LET s == st[T.s] IN
  CASE T.k = "r" ->
        LET got == Span(s, k) b2 == buf \o got s2 == [st EXCEPT ![T.s] = Took(s, Len(got))] IN
        IF Len(got) = 0 THEN res' = "err" /\ st' = s2 /\ UNCHANGED <<pc, left, buf>>
        ELSE IF Len(got) = left \/ Discipline = "once"
             THEN Advance(s2, b2 \o [i \in 1..(left - Len(got)) |-> 0])
             ELSE left' = left - Len(got) /\ buf' = b2 /\ st' = s2 /\ UNCHANGED <<pc, res>>
    [] T.k = "w" ->
        LET b == SubSeq(buf, T.n - left + 1, T.n - left + k) s2 == [st EXCEPT ![T.s] = Wrote(s, b)] IN
        IF k = left \/ Discipline = "once" THEN Advance(s2, buf)
        ELSE left' = left - k /\ st' = s2 /\ UNCHANGED <<pc, buf, res>>
    [] OTHER -> Advance([st EXCEPT ![T.s] = Moved(s, T.n)], buf)
Note(c) == sched' = Append(sched, c)
Full == Running /\ Part(left) /\ Note("F") /\ UNCHANGED failed
Short == Running /\ T.k # "s" /\ left > 1 /\ Part(1) /\ Note("S") /\ UNCHANGED failed
Budget == Len(SelectSeq(sched, LAMBDA c : c \in {"I", "Z"})) < MaxCalls
Interrupt == Running /\ Budget /\ T.k # "s" /\ Note("I") /\ UNCHANGED <<st, pc, left, buf, res, failed>>
(* a write that accepts nothing, or a stream that (at this place, this time) has nothing more *)
Zero == Running /\ Budget /\ T.k # "s" /\ Note("Z") /\ res' = "err" /\ UNCHANGED <<st, pc, left, buf, failed>>
Fail == Running /\ Note("X") /\ failed' = TRUE /\ res' = "err" /\ UNCHANGED <<st, pc, left, buf>>
Emit == res \in {"ok", "err"} /\ PrintT(<<"CASE", ToJson(sched)>>) /\ res' = (IF res = "ok" THEN "done" ELSE "over") /\ UNCHANGED <<st, pc, left, buf, sched, failed>>
Next == Full \/ Short \/ Interrupt \/ Zero \/ Fail \/ Emit \/ (res \in {"done", "over"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SuccessIsComplete == res \in {"ok", "done"} => st.o.data = Want /\ ~failed
FailureIsTold == failed => res \in {"err", "over"}
(* whatever happened, what is in the sink is what the program had put there so far *)
Honest == Discipline = "loop" => \A i \in 1..Len(st.o.data) : st.o.data[i] = Want[i]
Returns == <>(res \in {"done", "over"})
=================================================================================
