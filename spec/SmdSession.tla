------------------------------- MODULE SmdSession -------------------------------
(***************************************************************************)
(* A user's session: file versions, and patches held for pairs of them.    *)
(* A patch is what it denotes: one atom per byte of output, a literal byte *)
(* or a position of the source.  The tools are                             *)
(*   encode     any patch that turns one version into another              *)
(*   transcode  another patch that denotes the same                        *)
(*   merge      the composition of patches where each starts where the     *)
(*              previous one leads                                         *)
(*   re-encode  apply a patch, and encode the file obtained from any       *)
(*              version                                                    *)
(* Reconstructs: every patch held for a pair turns its first version into  *)
(* its second, after every history.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Lit(b) == <<"L", b>>
Src(i) == <<"S", i>>
Atom(a, s) == IF a[1] = "L" THEN a[2] ELSE s[a[2]]
Defined(p, s) == \A k \in 1..Len(p) : p[k][1] = "S" => p[k][2] \in 1..Len(s)
Denotes(p, s) == [k \in 1..Len(p) |-> Atom(p[k], s)]
(* p first, then q *)
Compose(p, q) == [k \in 1..Len(q) |-> IF q[k][1] = "L" THEN q[k] ELSE p[q[k][2]]]
(* Patches that turn s into t: each byte on its own as a literal or from any place of s that holds it. *)
Choices(b, s) == {Lit(b)} \cup {Src(i) : i \in {i \in 1..Len(s) : s[i] = b}}
IsPatch(p, s, t) == Defined(p, s) /\ Denotes(p, s) = t
NeedsSource(p) == \E k \in 1..Len(p) : p[k][1] = "S"
=================================================================================
