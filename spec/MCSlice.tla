------------------------------- MODULE MCSlice -------------------------------
(* Every short contiguous list, every range in and around it: the cutting algorithm yields a slice. *)
EXTENDS SmdSlice, TLC, Json
CONSTANTS Kinds, MaxOps, Bases
VARIABLES l, start, n, done
vars == <<l, start, n, done>>
RECURSIVE Place(_, _)
Place(os, p) == IF os = <<>> THEN <<>> ELSE <<[p |-> p, o |-> Head(os)]>> \o Place(Tail(os), WAdd(p, FromNat(OpLen(Head(os)))))
Lists == UNION {[1..k -> Kinds] : k \in 0..MaxOps}
Init ==
  /\ done = FALSE
  /\ \E os \in Lists : \E base \in Bases :
       /\ l = Place(os, base)
       /\ PrintT(<<"CASE", ToJson([l |-> l])>>)
       /\ \E off \in {-1} \cup (0..(Total(l) + 1)) :
            /\ start = IF off = -1 THEN WSub(base, WOne) ELSE WAdd(base, FromNat(off))
            /\ n \in 1..(Total(l) + 2)
Next == (~done /\ done' = TRUE /\ UNCHANGED <<l, start, n>>) \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Good == Covered(l, start, n) => /\ IsSlice(ExactSlice(l, start, n), l, start, n)
                                /\ Controlling(l, start) # 0
Byte == LET k == Controlling(l, start) IN
          k # 0 => AtomOf(l[k].o, ToNat(WSub(start, l[k].p))) = Atoms(l)[OffsetIn(l, start) + 1]
None == ~Covered(l, start, 1) => Controlling(l, start) = 0
MCKinds == {Add(<<1>>), Add(<<2, 3, 4>>), Run(9, 1), Run(7, 2), CopyD(<<5, 0, 0, 0>>, 2), CopyO(<<65535, 65535, 0, 0>>, 3)}
MCBases == {WOne, <<65534, 65535, 3, 0>>}
=============================================================================
