-------------------------------- MODULE MCWord --------------------------------
(***************************************************************************)
(* The integer encodings, checked over every word whose limbs are at a     *)
(* boundary: encoding and decoding (with every amount of padding) are      *)
(* inverse, the written form is the shortest, zig-zag is a bijection that  *)
(* keeps small magnitudes small, address differences lead back, truncated  *)
(* encodings never decode.  Every word and every byte string examined is   *)
(* emitted as a case for the code.                                         *)
(***************************************************************************)
EXTENDS WordMachine, FiniteSets, Json, TLC
CONSTANT Limbs
VARIABLES w, pad, cut, bump
vars == <<in, r, w, pad, cut, bump>>
Words == {<<a, b, c, e>> : a \in Limbs, b \in Limbs, c \in Limbs, e \in Limbs}
Bytes(x, p) == UVarintPadded(x, p)

\* bump: what is done to the last byte of the encoding (0 nothing, else its new value: too large or unterminated)
Init ==
  /\ w \in Words
  /\ pad \in {GroupCount(w), 10}
  /\ cut \in {0, 1}
  /\ bump \in IF cut = 0 THEN {0, 2, 130, 255} ELSE {0}
  /\ LET full == Bytes(w, pad)
         b == IF cut = 1 THEN SubSeq(full, 1, Len(full) - 1) ELSE IF bump = 0 THEN full ELSE SubSeq(full, 1, Len(full) - 1) \o <<bump>>
     IN in = b /\ PrintT(<<"CASE", ToJson([w |-> w, bytes |-> b])>>)
  /\ r = Start
Next == (ReadByte \/ (r.st # "run" /\ UNCHANGED <<in, r>>)) /\ UNCHANGED <<w, pad, cut, bump>>
Spec == Init /\ [][Next]_vars

Done == r.st # "run"
Roundtrip == Done /\ cut = 0 /\ bump = 0 => r.st = "ok" /\ r.v = w /\ r.used = pad
Shortest == Done /\ cut = 0 /\ bump = 0 /\ r.st = "ok" /\ r.used = GroupCount(w) => Len(UVarint(w)) = r.used /\ UVarint(w) = in
Truncated == Done /\ cut = 1 => r.st = "eof"
Ranges == Done /\ r.st = "ok" => IsWord(r.v) /\ r.used \in 1..10
LongTooBig == Done /\ bump # 0 /\ pad = 10 => r.st = "over"
ZigZagInverse == UnZigZag(ZigZag(w)) = w /\ ZigZag(UnZigZag(w)) = w
ZigZagSmall == \A k \in {0, 1, 63} : /\ ZigZag(FromNat(k)) = FromNat(2 * k)
                                     /\ k > 0 => ZigZag(WNeg(FromNat(k))) = FromNat(2 * k - 1)
Address == \A a \in {WZero, WOne, <<0, 0, 0, 32768>>, <<65535, 65535, 65535, 65535>>, <<65535, 65535, 65535, 32767>>, w, WNot(w), WShl1(w)} :
             AddrMove(a, AddrDiff(a, w)) = w /\ AddrMove(w, AddrDiff(w, a)) = a
=============================================================================
