------------------------------- MODULE MCEncoder -------------------------------
(* Every short edit history of a file of blocks, encoded under every switch. *)
EXTENDS SmdVersions, SmdEncoder, TLC, Json
CONSTANTS SecMaxes, Switches
VARIABLE ph
vars == <<v, e, ph>>
Expand(b) ==
  CASE b = 0 -> <<0, 0, 0>>
    [] b \in 1..99 -> <<10 * b, 10 * b + 1, 10 * b + 2, 10 * b + 3>>
    [] b \in 100..199 -> <<10 * (b - 100), 10 * (b - 100) + 1, 5000 + b, 10 * (b - 100) + 3>>
    [] b \in 200..299 -> <<10 * (b - 200), 10 * (b - 200) + 1>>
    [] OTHER -> <<10 * (b - 300) + 2, 10 * (b - 300) + 3>>
Bytes(s) == FlattenSeq([i \in 1..Len(s) |-> Expand(s[i])])
Init == VInit /\ ph = "edit" /\ EInit([src |-> <<>>, trg |-> <<>>, useSrc |-> FALSE, useTrg |-> FALSE, secMax |-> 1])
Editing == ph = "edit" /\ Edit /\ UNCHANGED <<e, ph>>
Begin ==
  /\ ph = "edit" /\ ph' = "encode" /\ UNCHANGED v
  /\ PrintT(<<"CASE", ToJson([src |-> v.src, trg |-> v.trg, fresh |-> v.fresh, touched |-> v.touched, seams |-> v.seams])>>)
  /\ \E sw \in Switches, sm \in SecMaxes :
       e' = [e EXCEPT !.c = [src |-> Bytes(v.src), trg |-> Bytes(v.trg), useSrc |-> sw[1], useTrg |-> sw[2], secMax |-> sm]]
Encoding == ph = "encode" /\ ENext /\ UNCHANGED <<v, ph>>
Done == e.closed /\ UNCHANGED vars
Next == Editing \/ Begin \/ Encoding \/ Done
Spec == Init /\ [][Next]_vars
(* what it costs: the new blocks (each time they occur, when what is in the target is not looked at), the changed  *)
(* bytes, and at every seam less than a shortest match                                                             *)
Occurrences == Cardinality({i \in 1..Len(v.trg) : (v.trg[i] % 100) \in 11..20})
New == IF e.c.useTrg \/ Occurrences < v.fresh THEN v.fresh ELSE Occurrences
Cheap == e.closed /\ Greedy /\ e.c.useSrc /\ e.c.secMax >= 1000 =>
           e.lit <= 4 * New + v.touched + (MinMatch - 1) * v.seams
(* and how many copies: what lies between two seams is found whole *)
Few == e.closed /\ Greedy /\ e.c.useSrc /\ e.c.secMax >= 1000 => e.cps <= 1 + v.seams
Ends == ph = "encode" /\ ~e.closed => ENABLED ENext
AllSwitches == {<<a, b>> : a \in BOOLEAN, b \in BOOLEAN}
OnlySrc == {<<TRUE, FALSE>>, <<TRUE, TRUE>>}
=============================================================================
