------------------------------- MODULE SmdConfig -------------------------------
(***************************************************************************)
(* The encoder's configuration as a machine: a constructor, then setters,  *)
(* each of which determines some fields and leaves the others alone.  A    *)
(* call is <<name, argument>>.  What a configuration promises about a      *)
(* patch is stated on summaries of its sections.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
MinSection == 65535
MaxSectionSize == 16777215
Default == [src |-> TRUE, trg |-> FALSE, algo |-> 0, seg |-> FALSE, lim |-> MaxSectionSize]
(* comp_level: the layout follows from whether there is secondary compression *)
Level(trg, algo) == [src |-> TRUE, trg |-> trg, algo |-> algo, seg |-> algo # 0, lim |-> MaxSectionSize]
Construct(c) == CASE c[1] = "new" -> Default
                  [] c[1] = "level" -> Level(FALSE, c[2])
                  [] c[1] = "leveltrg" -> Level(TRUE, c[2])
Setters == {"nosrc", "src", "notrg", "trg", "sec", "nosec", "inter", "segr", "size", "lazy", "naive"}
Set(f, c) ==
  CASE c[1] = "nosrc" -> [f EXCEPT !.src = FALSE]
    [] c[1] = "src"   -> [f EXCEPT !.src = TRUE]
    [] c[1] = "notrg" -> [f EXCEPT !.trg = FALSE]
    [] c[1] = "trg"   -> [f EXCEPT !.trg = TRUE]
    [] c[1] = "sec"   -> [f EXCEPT !.algo = c[2]]
    [] c[1] = "nosec" -> [f EXCEPT !.algo = 0]
    [] c[1] = "inter" -> [f EXCEPT !.seg = FALSE]
    [] c[1] = "segr"  -> [f EXCEPT !.seg = TRUE]
    [] c[1] = "size"  -> [f EXCEPT !.lim = c[2]]
    [] OTHER          -> f     \* how hard to look for matches: no promise
Clamp(n) == IF n < MinSection THEN MinSection ELSE IF n > MaxSectionSize THEN MaxSectionSize ELSE n
(* s: a section's algorithm, layout, output size, copies from the source, copies from the output of anything but one byte repeated *)
Honours(f, s, hassrc) ==
  /\ s.algo = f.algo /\ s.seg = f.seg /\ s.osz <= Clamp(f.lim)
  /\ (~f.src \/ ~hassrc) => s.nd = 0
  /\ ~f.trg => s.no = 0
================================================================================
