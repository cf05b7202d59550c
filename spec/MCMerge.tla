------------------------------- MODULE MCMerge -------------------------------
(***************************************************************************)
(* Every chain of short patches: an author writes the patches from the     *)
(* oldest to the newest, then they are merged from the newest back.        *)
(***************************************************************************)
EXTENDS SmdMerge, TLC, Json
CONSTANTS SrcLen, Sizes      \* Sizes[k]: how many operations patch k may have
VARIABLES chain, ph, held, taken, dens
vars == <<chain, ph, held, taken, dens>>

(* operations possible with have bytes of source and made bytes of output *)
Possible(have, made) ==
  {Add(<<7>>), Add(<<8, 9>>), Run(5, 2)}
  \cup {CopyD(FromNat(a), n) : a \in 0..(have - 1), n \in 1..have}
  \cup {CopyO(FromNat(a), n) : a \in 0..(made - 1), n \in 1..made}
Have(k) == IF k = 1 THEN SrcLen ELSE OutLen(chain[k - 1])
K == Len(chain)

Init == chain = <<<<>>>> /\ ph = "write" /\ held = <<>> /\ taken = 0 /\ dens = <<>>
WriteOp ==
  /\ ph = "write" /\ Len(chain[K]) < Sizes[K]
  /\ \E op \in Possible(Have(K), OutLen(chain[K])) :
       /\ Performable(Den(chain[K], Have(K))[2], op, Have(K))
       /\ chain' = [chain EXCEPT ![K] = Append(@, op)]
  /\ UNCHANGED <<ph, held, taken, dens>>
NextPatch == ph = "write" /\ K < Len(Sizes) /\ chain' = Append(chain, <<>>) /\ UNCHANGED <<ph, held, taken, dens>>
(* what each patch does to its own source *)
Begin ==
  /\ ph = "write" /\ K = Len(Sizes)
  /\ PrintT(<<"CASE", ToJson([srclen |-> SrcLen, chain |-> chain])>>)
  /\ dens' = [k \in 1..K |-> Den(chain[k], Have(k))[2]]
  /\ held' = Flat(chain[K]) /\ taken' = 1 /\ ph' = "merge" /\ UNCHANGED chain
Merge ==
  /\ ph = "merge" /\ taken < K
  /\ held' = TakeUp(held, chain[K - taken]) /\ taken' = taken + 1
  /\ UNCHANGED <<chain, ph, dens>>
Done == ph = "merge" /\ taken = K /\ UNCHANGED vars
Next == WriteOp \/ NextPatch \/ Begin \/ Merge \/ Done
Spec == Init /\ [][Next]_vars

RECURSIVE Whole(_, _)
Whole(from, to) == IF from = to THEN dens[to] ELSE Compose(dens[to], Whole(from, to - 1))
From == K + 1 - taken
(* what is held means what the patches taken up mean one after another *)
MeansChain == ph = "merge" => LET m == Den(held, Have(From)) IN m[1] /\ m[2] = Whole(From, K)
(* nothing in it refers to its own output, nothing is empty *)
NoOutputCopies == ph = "merge" => \A i \in 1..Len(held) : held[i].t # "O" /\ OpLen(held[i]) >= 1
(* it is finished exactly when the source does not matter, and then stays so *)
FinishedMeans == ph = "merge" => (Finished(held) <=> ~DependsOnSrc(Whole(From, K)))
StaysFinished == [][ph = "merge" /\ Finished(held) => held' = held]_vars
(* the order of merging does not matter: first the two oldest, then the rest *)
Associative ==
  ph = "merge" /\ taken = K /\ K = 3 =>
    LET old == TakeUp(Flat(chain[2]), chain[1]) IN Den(TakeUp(Flat(chain[3]), old), SrcLen) = Den(held, SrcLen)
S22 == <<2, 2>>
S32 == <<3, 2>>
S121 == <<1, 2, 1>>
S222 == <<2, 2, 2>>
=============================================================================
