------------------------------- MODULE MCIter -------------------------------
(* Every short stream of patches, every sequence of calls. *)
EXTENDS SmdReader, SmdFormat, TLC, Json
CONSTANTS MaxSecs, MaxCalls
VARIABLES secs, s, calls
vars == <<secs, s, calls>>

Shapes == << <<>>, <<Run(9, 3)>>, <<Add(<<1, 2>>), Add(<<3>>)>>, <<CopyD(<<7, 0, 0, 0>>, 2), Add(<<4, 5>>)>>, <<Run(1, 62), CopyD(<<1, 0, 0, 0>>, 70)>> >>
(* which section is the last of its patch; the last one is *)
Flags(n) == {f \in [1..n -> BOOLEAN] : ~f[n]}
Streams == UNION {{[i \in 1..n |-> [ops |-> Shapes[((i * 2 + c) % Len(Shapes)) + 1], seg |-> ((i + c) % 2) = 0, more |-> f[i]]] : f \in Flags(n), c \in 1..Len(Shapes)}
                  : n \in 1..MaxSecs}

Emit(c) == IF Len(c) = MaxCalls THEN PrintT(<<"CASE", ToJson([secs |-> secs, calls |-> c])>>) ELSE TRUE

Init == secs \in Streams /\ s = Start /\ calls = <<>>
Call(k) == CanCall(s, secs) /\ s' = AfterCall(s, secs) /\ calls' = Append(calls, [k |-> k, i |-> Handed(s)])
Reopen == s.at < Len(secs) /\ s' = AfterReopen(s) /\ calls' = Append(calls, [k |-> "reopen", i |-> 0])
Raw == CanRaw(s, secs) /\ s' = AfterRaw(s) /\ calls' = Append(calls, [k |-> "raw", i |-> s.at + 1])
Next ==
  \/ Len(calls) < MaxCalls /\ UNCHANGED secs /\ (Call("own") \/ Call("borrow") \/ Reopen \/ Raw) /\ Emit(calls')
  \/ (Len(calls) = MaxCalls \/ ~CanCall(s, secs)) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Out == SelectSeq(calls, LAMBDA c : c.i > 0)
(* every section once, in order *)
InOrder == \A k \in 1..Len(Out) : Out[k].i = k
Ends(k) == calls[k].k \in {"own", "borrow"} /\ calls[k].i = 0
(* the end is reported right behind a terminal section, and forever unless somebody reopens *)
EndsThere == \A k \in 1..Len(calls) : Ends(k) =>
   /\ k > 1
   /\ Ends(k - 1) \/ (calls[k - 1].k \in {"own", "borrow"} /\ ~secs[calls[k - 1].i].more)
Forever == \A k \in 1..(Len(calls) - 1) : Ends(k) /\ calls[k + 1].k \in {"own", "borrow"} => Ends(k + 1)
(* an iterator never goes on behind a terminal section *)
NotBeyond == \A k \in 1..(Len(calls) - 1) :
   (calls[k].k \in {"own", "borrow"} /\ calls[k].i > 0 /\ ~secs[calls[k].i].more /\ calls[k + 1].k \in {"own", "borrow"}) => calls[k + 1].i = 0
=============================================================================
