-------------------------------- MODULE MCConfig --------------------------------
(* Every constructor followed by every sequence of up to MaxSets setters. *)
EXTENDS SmdConfig, Json
CONSTANT MaxSets
VARIABLES calls, cfg, ph
vars == <<calls, cfg, ph>>
Ctors == {<<"new", 0>>} \cup {<<c, a>> : c \in {"level", "leveltrg"}, a \in 0..3}
Sets == {<<c, 0>> : c \in Setters \ {"sec", "size"}} \cup {<<"sec", a>> : a \in 1..3} \cup {<<"size", n>> : n \in {0, 70000, 2000000000}}
Init == \E c \in Ctors : calls = <<c>> /\ cfg = Construct(c) /\ ph = "run"
Apply == ph = "run" /\ Len(calls) <= MaxSets /\ \E c \in Sets : calls' = Append(calls, c) /\ cfg' = Set(cfg, c) /\ UNCHANGED ph
Emit == ph = "run" /\ PrintT(<<"CASE", ToJson(calls)>>) /\ ph' = "end" /\ UNCHANGED <<calls, cfg>>
Next == Apply \/ Emit \/ (ph = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
(* the last word on a field counts, and nothing else does *)
Last(names) == LET I == {i \in 2..Len(calls) : calls[i][1] \in names} IN IF I = {} THEN <<"-", 0>> ELSE calls[CHOOSE i \in I : \A k \in I : k <= i]
LastWins ==
  LET b == Construct(calls[1]) IN
  /\ cfg.src = (CASE Last({"nosrc", "src"})[1] = "nosrc" -> FALSE [] Last({"nosrc", "src"})[1] = "src" -> TRUE [] OTHER -> b.src)
  /\ cfg.trg = (CASE Last({"notrg", "trg"})[1] = "notrg" -> FALSE [] Last({"notrg", "trg"})[1] = "trg" -> TRUE [] OTHER -> b.trg)
  /\ cfg.algo = (CASE Last({"nosec", "sec"})[1] = "nosec" -> 0 [] Last({"nosec", "sec"})[1] = "sec" -> Last({"nosec", "sec"})[2] [] OTHER -> b.algo)
  /\ cfg.seg = (CASE Last({"inter", "segr"})[1] = "inter" -> FALSE [] Last({"inter", "segr"})[1] = "segr" -> TRUE [] OTHER -> b.seg)
  /\ cfg.lim = (IF Last({"size"})[1] = "size" THEN Last({"size"})[2] ELSE b.lim)
=================================================================================
