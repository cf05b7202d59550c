----------------------------- MODULE MCSections -----------------------------
(* Every list of up to MaxOps operations with lengths around the limits, every kind of requested size. *)
EXTENDS SmdSections, TLC, Json
CONSTANTS Kinds, Reqs, MaxOps
vars == <<ops, req, at, groups>>
Lists == UNION {[1..n -> Kinds] : n \in 0..MaxOps}
Init ==
  /\ ops \in Lists /\ req \in Reqs /\ at = 0 /\ groups = <<>>
  /\ PrintT(<<"CASE", ToJson([ops |-> ops, req |-> req])>>)
Next == (\E n \in 0..MaxOps : CloseGroup(n)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Partition == Finished => IsPartition(groups)
Prefix == Concat(groups) = SubSeq(ops, 1, at)
MCKinds == {<<"A", 1>>, <<"A", 65535>>, <<"D", 65534>>, <<"O", 65535>>, <<"R", 62>>}
MCReqs == {0, 65535, 65536, 131069, 2000000000}
=============================================================================
