------------------------------- MODULE MCRewrite -------------------------------
(***************************************************************************)
(* A list of operations is rewritten step by step (SmdMerge): joined, cut, *)
(* runs made of literals, copies made of runs.  However far that goes, the *)
(* list keeps its meaning and its size; a list that is legal again can be  *)
(* written in the place of the first.                                      *)
(***************************************************************************)
EXTENDS SmdMerge, TLC, Json
CONSTANTS Groups, MaxGroups, MaxRewrites, SrcLen
VARIABLES first, ops, k, n
vars == <<first, ops, k, n>>
Init == first = <<>> /\ ops = <<>> /\ k = 0 /\ n = 0
Write ==
  /\ n = 0 /\ k < MaxGroups
  /\ \E g \in Groups : /\ Den(first \o g, SrcLen)[1]
                       /\ first' = first \o g /\ ops' = first \o g
  /\ k' = k + 1 /\ UNCHANGED n
Begin ==
  /\ n = 0
  /\ PrintT(<<"CASE", ToJson([secs |-> <<[seg |-> FALSE, ops |-> first]>>, src |-> [i \in 1..SrcLen |-> 0]])>>)
  /\ n' = 1 /\ UNCHANGED <<first, ops, k>>
Huge == 100000
Rewrite ==
  /\ n \in 1..MaxRewrites
  /\ \E i \in 1..Len(ops) :
       ops' \in (IF CanJoinAdds(ops, i) THEN {JoinAdds(ops, i)} ELSE {})
                \cup (IF CanJoinRuns(ops, i, Huge) THEN {JoinRuns(ops, i)} ELSE {})
                \cup (IF CanRunOfAdd(ops, i) THEN {RunOfAdd(ops, i)} ELSE {})
                \cup (IF CanSplit(ops, i) THEN {Split(ops, i, 1), Split(ops, i, OpLen(ops[i]) - 1)} ELSE {})
                \cup (IF OpLen(ops[i]) >= 4 /\ CanCopyRun(ops, i, OpLen(ops[i]) - 2) THEN {CopyRun(ops, i, OpLen(ops[i]) - 2)} ELSE {})
  /\ n' = n + 1 /\ UNCHANGED <<first, k>>
Done == n > 0 /\ UNCHANGED vars
Next == Write \/ Begin \/ Rewrite \/ Done
Spec == Init /\ [][Next]_vars

SameMeaning == Den(ops, SrcLen) = Den(first, SrcLen)
SameSize == OutLen(ops) = OutLen(first)
NothingEmpty == \A i \in 1..Len(ops) : OpLen(ops[i]) >= 1

Rep(o, m) == [i \in 1..m |-> o]
MCGroups == {<<Add(<<7>>)>>, <<Add(<<7, 7>>)>>, Rep(Run(7, 62), 6), <<Run(7, 62)>>, <<Run(7, 1)>>, <<Run(8, 62)>>,
             <<Add([i \in 1..61 |-> i]), Add(<<1, 2>>)>>, <<CopyD(WZero, 3)>>, <<CopyO(WZero, 1)>>, <<CopyO(FromNat(60), 62)>>}
=============================================================================
