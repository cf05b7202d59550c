------------------------------- MODULE MCSession -------------------------------
(* Every history of up to MaxSteps operations over three small versions; encode picks any patch there is. *)
EXTENDS SmdSession, Json
CONSTANTS MaxSteps, AllChoices
Versions == << <<1, 2>>, <<2, 1, 2>>, <<2>> >>
VARIABLES held, hist, ph
vars == <<held, hist, ph>>
V == 1..Len(Versions)
(* 0: no source at all *)
File(v) == IF v = 0 THEN <<>> ELSE Versions[v]
Encodings(s, t) ==
  IF AllChoices THEN {p \in [1..Len(t) -> UNION {Choices(t[k], s) : k \in 1..Len(t)}] : Denotes(p, s) = t}
  ELSE {[k \in 1..Len(t) |-> Lit(t[k])],
        [k \in 1..Len(t) |-> CHOOSE a \in Choices(t[k], s) : (\E i \in 1..Len(s) : s[i] = t[k]) => a[1] = "S"]}
Hold(f, t, p, h) == held' = Append(held, [f |-> f, t |-> t, p |-> p]) /\ hist' = Append(hist, h) /\ UNCHANGED ph
Init == held = <<>> /\ hist = <<>> /\ ph = "run"
Going == ph = "run" /\ Len(hist) < MaxSteps
Encode == Going /\ \E f \in V \cup {0}, t \in V : \E p \in Encodings(File(f), Versions[t]) : Hold(f, t, p, <<"E", f, t>>)
Transcode == Going /\ \E k \in DOMAIN held : Hold(held[k].f, held[k].t, held[k].p, <<"T", k, 0>>)
Merge == Going /\ \E k, l \in DOMAIN held : held[k].t = held[l].f /\ Hold(held[k].f, held[l].t, Compose(held[k].p, held[l].p), <<"M", k, l>>)
Reencode == Going /\ \E k \in DOMAIN held, f \in V \cup {0} :
  LET file == Denotes(held[k].p, File(held[k].f)) IN
  \E p \in Encodings(File(f), file) : Hold(f, held[k].t, p, <<"R", k, f>>)
Emit == ph = "run" /\ Len(hist) = MaxSteps /\ PrintT(<<"CASE", ToJson(hist)>>) /\ ph' = "end" /\ UNCHANGED <<held, hist>>
Next == Encode \/ Transcode \/ Merge \/ Reencode \/ Emit \/ (ph = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Reconstructs == \A k \in DOMAIN held : IsPatch(held[k].p, File(held[k].f), Versions[held[k].t])
================================================================================
