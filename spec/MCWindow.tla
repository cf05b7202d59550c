------------------------------- MODULE MCWindow -------------------------------
(***************************************************************************)
(* The part of a large source an encoder has indexed, and how it moves on  *)
(* while the target is read.  Positions are counted in units; the window   *)
(* is 2*Half wide and is put anew around the place in the source that      *)
(* corresponds to the target position, each time that position reaches     *)
(* `next`.  The target is the source with edits; between two edits it      *)
(* continues the source, and the encoder can follow it from the first      *)
(* position on that lies in the window (a match, once found, does not need *)
(* the window).                                                            *)
(*                                                                         *)
(* Eager: the window also moves while there is no match.  Without that an  *)
(* edit just before the window would have moved leaves an encoder with     *)
(* nothing to find, and nothing to make it move on.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Half, Length, MaxEdits, Eager
VARIABLES t, s,      \* positions in the target, and the source position it continues
          lo, hi,    \* the indexed part of the source
          next,      \* where the window moves next
          mode,      \* "match": following the source; "search": nothing found yet
          edits, lost, shift, stuck
vars == <<t, s, lo, hi, next, mode, edits, lost, shift, stuck>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
TLen == Length + shift                     \* of the target, as far as it is known
Far == 1000 * Length
(* the window around the source position that corresponds to target position p *)
Put(p) ==
  LET mid == (p * Length) \div Max(TLen, 1)
      lo1 == IF p < Half THEN 0 ELSE Max(0, mid - Half)
      hi1 == IF p < Half THEN 2 * Half ELSE mid + Half
  IN /\ lo' = lo1 /\ hi' = Min(hi1, Length)
     /\ next' = IF hi1 >= Length THEN Far ELSE p + Half
Keep == UNCHANGED <<lo, hi, next>>
Init == /\ t = 0 /\ s = 0 /\ lo = 0 /\ hi = Min(2 * Half, Length) /\ next = IF 2 * Half >= Length THEN Far ELSE Half
        /\ mode = "match" /\ edits = <<>> /\ lost = 0 /\ shift = 0 /\ stuck = FALSE
(* a match of k units, then an edit; then the encoder has to find the source again *)
Steps == {1, 2, Half - 1, Half, Half + 1} \cup {next - t - 1, next - t, next - t + 1}
Edit ==
  /\ mode = "match" /\ Len(edits) < MaxEdits
  /\ \E k \in {x \in Steps : x > 0 /\ s + x < Length}, kind \in {"touch", "insert", "remove"} :
       LET new == IF kind = "insert" THEN 1 ELSE 0
           gone == IF kind = "remove" THEN 1 ELSE 0
       IN /\ s + k + gone < Length
          /\ t' = t + k + new /\ s' = s + k + gone /\ shift' = shift + new - gone
          /\ edits' = Append(edits, [copy |-> k, kind |-> kind])
          \* the position the match ended at is a place to move the window, once it is far enough
          /\ IF t + k >= next THEN Put(t + k) ELSE Keep
  /\ mode' = "search" /\ UNCHANGED <<lost, stuck>>
Found == mode = "search" /\ lo <= s /\ s < hi
Find == Found /\ mode' = "match" /\ UNCHANGED <<t, s, edits, lost, shift, stuck, lo, hi, next>>
(* a unit is stored again *)
Store ==
  /\ mode = "search" /\ ~Found /\ s < Length
  /\ IF Eager /\ t >= next THEN Put(t) /\ UNCHANGED <<t, s, lost, stuck>>
     ELSE t' = t + 1 /\ s' = s + 1 /\ lost' = lost + 1 /\ Keep /\ stuck' = (s + 1 = Length)
  /\ UNCHANGED <<mode, edits, shift>>
Finish == /\ (mode = "match" \/ s = Length) /\ edits # <<>>
          /\ PrintT(<<"CASE", ToJson([edits |-> edits])>>)
          /\ mode' = "done" /\ UNCHANGED <<t, s, lo, hi, next, edits, lost, shift, stuck>>
Next == Edit \/ Find \/ Store \/ Finish \/ (mode = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
(* what is stored again after an edit is at most what has been removed so far: only that can take the source out of the window *)
Gone(i) == Cardinality({j \in 1..i : edits[j].kind = "remove"})
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE Gone(i) + Sum(i - 1)
Bounded == lost <= Sum(Len(edits))
Recovers == ~stuck
=============================================================================
