------------------------------- MODULE MCFormat -------------------------------
(***************************************************************************)
(* Writer, channel and reader.  The author writes any patch, the channel   *)
(* passes it on whole, with something behind it, cut short, or with one    *)
(* byte replaced, and the reader decodes what arrives.                     *)
(***************************************************************************)
EXTENDS SmdDecoder, SmdWriter, TLC, Json

CONSTANTS Faults,      \* subset of {"none", "junk", "cut", "set"}
          Values,      \* what replaced bytes become
          Source       \* the bytes copied from

VARIABLE ch            \* the channel: "idle", or the fault [k, at, b]
vars == <<decVars, w, ch>>

MCPatch(c) == c.patch
MCSrc(c) == c.src
MCHas(c) == TRUE
MCInflate(c) == <<>>
MCBase(c) == WZero

Idle == [k |-> "idle", at |-> 0, b |-> 0]
Init == DecInit /\ WInit /\ ch = Idle /\ cid = [patch |-> <<>>, src |-> Source]

(* positions worth damaging: all of a short patch, both ends of a long one *)
Near(n) == {i \in 1..n : i <= 14 \/ i > n - 8}

Send(f, bytes) ==
  /\ ch' = f
  /\ cid' = [patch |-> bytes, src |-> Source]
  /\ PrintT(<<"CASE", ToJson([bytes |-> bytes, src |-> Source, fault |-> f.k,
                              secs |-> [i \in 1..Len(w.secs) |-> [algo |-> w.secs[i].algo, seg |-> w.secs[i].seg, ops |-> w.secs[i].ops]]])>>)
  /\ UNCHANGED <<d, w>>

Transmit ==
  /\ w.closed /\ ch = Idle
  /\ LET b == Written IN
     \/ "none" \in Faults /\ Send([k |-> "none", at |-> 0, b |-> 0], b)
     \/ "junk" \in Faults /\ \E x \in Values : Send([k |-> "junk", at |-> 0, b |-> x], b \o <<x, 0>>)
     \/ "cut" \in Faults /\ \E i \in Near(Len(b)) : Send([k |-> "cut", at |-> i, b |-> 0], SubSeq(b, 1, i - 1))
     \/ "set" \in Faults /\ \E i \in Near(Len(b)), x \in Values :
          b[i] # x /\ Send([k |-> "set", at |-> i, b |-> x], [b EXCEPT ![i] = x])

Author == WNext /\ UNCHANGED <<decVars, ch>>
Reader == ch # Idle /\ ~Stopped /\ DecNext /\ UNCHANGED <<w, ch>>
Done   == Stopped /\ UNCHANGED vars
Next == Author \/ Transmit \/ Reader \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Intact == Stopped /\ ch.k \in {"none", "junk"}
Length == Len(cid.patch)

(* what was written is what is read, section by section *)
RoundTrip ==
  Intact => /\ d.parse = "ok"
            /\ ~d.lax
            /\ Len(d.secs) = Len(w.secs)
            /\ \A i \in 1..Len(w.secs) :
                 /\ d.secs[i].ops = w.secs[i].ops /\ d.secs[i].seg = w.secs[i].seg /\ d.secs[i].more = w.secs[i].more
                 /\ d.secs[i].algo = w.secs[i].algo
                 /\ d.secs[i].osz = OutLen(w.secs[i].ops)
(* reading ends where the patch ends *)
EndsThere == Intact => d.pos = IF ch.k = "junk" THEN Length - 2 ELSE Length
(* application is denotation *)
Denotes ==
  Intact => LET den == Den(WrittenOps, Len(Source)) IN
              /\ (d.dOk /\ d.oOk) <=> den[1]
              /\ den[1] => d.out = Resolve(den[2], Source)
              /\ ApplyVerdict = IF den[1] THEN "accept" ELSE "reject"
              /\ OutputCopyBad(WrittenOps) => ~den[1]
(* nothing shorter is a patch *)
PrefixFree == Stopped /\ ch.k = "cut" => d.parse = "bad"
(* whatever arrives, what is accepted keeps its own promises, and nothing behind the end is read *)
Consistent ==
  Stopped => /\ d.parse \in {"ok", "bad", "free"}
             /\ d.pos <= Length
             /\ d.parse = "ok" =>
                  /\ \A i \in 1..Len(d.secs) :
                       /\ OutLen(d.secs[i].ops) = d.secs[i].osz /\ Len(d.secs[i].ops) = d.secs[i].nops
                       /\ \A j \in 1..Len(d.secs[i].ops) : LegalLen(d.secs[i].ops[j])
                       /\ d.secs[i].more = (i < Len(d.secs))
                  /\ d.dOk /\ d.oOk => Len(d.out) = SumSeq([i \in 1..Len(d.secs) |-> d.secs[i].osz])
(* the canonical form is one of the forms, and none is shorter *)
ShortForm == ch.k = "none" /\ (\A i \in 1..Len(w.secs) : w.secs[i].algo = 0) => Len(Canonical) <= Length
(* the machine moves forward: the position never exceeds what there is, and a step follows until it stops *)
Progress == ch # Idle /\ ~Stopped => ENABLED Reader

-----------------------------------------------------------------------------
Far == <<0, 0, 0, 32768>>
MCSource == [i \in 1..64 |-> 100 + i]
OpsSmall == {Add(<<7>>), Add(<<1, 255>>), Run(9, 2), CopyD(WZero, 1), CopyD(FromNat(62), 2), CopyD(FromNat(63), 2), CopyO(WZero, 1), CopyO(WOne, 2)}
OpsForms == {Add(<<7>>), Add([i \in 1..62 |-> i]), Run(200, 62), CopyD(WZero, 62), CopyD(FromNat(3), 63), CopyO(WZero, 1), CopyO(WOne, 62), CopyD(Far, 1), CopyO(Far, 1)}
OpsFault == {Add(<<7, 8>>), Run(9, 1), CopyD(FromNat(62), 2), CopyO(WOne, 1)}
ValuesFew == {0, 1, 2, 65, 128, 255}
ValuesMany == {0, 1, 2, 3, 4, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 191, 192, 193, 254, 255}
=============================================================================
