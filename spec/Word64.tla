------------------------------- MODULE Word64 -------------------------------
(***************************************************************************)
(* 64-bit machine words for TLC, whose own integers have 32 bits.          *)
(*                                                                         *)
(* A word is a sequence of four 16-bit limbs, least significant first.     *)
(* Signed values are two's complement.  The module also defines the two    *)
(* integer encodings of the format: the u-varint (7-bit groups, least      *)
(* significant first, high bit = "more follows") and the zig-zag map.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

LB == 65536                              \* limb base
WZero == <<0, 0, 0, 0>>
WOne  == <<1, 0, 0, 0>>

IsWord(w) == /\ Len(w) = 4
             /\ \A i \in 1..4 : w[i] \in 0..(LB - 1)

(* n must be below 2^31 *)
FromNat(n) == <<n % LB, n \div LB, 0, 0>>
FitsNat(w) == w[3] = 0 /\ w[4] = 0 /\ w[2] < 32768
ToNat(w)   == w[1] + LB * w[2]

FitsU32(w) == w[3] = 0 /\ w[4] = 0

WAdd(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div LB
      s3 == a[3] + b[3] + s2 \div LB
      s4 == a[4] + b[4] + s3 \div LB
  IN <<s1 % LB, s2 % LB, s3 % LB, s4 % LB>>

WNot(a) == [i \in 1..4 |-> LB - 1 - a[i]]
WNeg(a) == WAdd(WNot(a), WOne)
WSub(a, b) == WAdd(a, WNeg(b))

(* unsigned comparison *)
WLt(a, b) ==
  \/ a[4] < b[4]
  \/ a[4] = b[4] /\ \/ a[3] < b[3]
                    \/ a[3] = b[3] /\ \/ a[2] < b[2]
                                      \/ a[2] = b[2] /\ a[1] < b[1]

WIsNeg(a) == a[4] >= LB \div 2
WOdd(a)   == a[1] % 2 = 1

WShl1(a) == << (2 * a[1]) % LB,
               (2 * a[2] + (2 * a[1]) \div LB) % LB,
               (2 * a[3] + (2 * a[2]) \div LB) % LB,
               (2 * a[4] + (2 * a[3]) \div LB) % LB >>
WShr1(a) == << a[1] \div 2 + (a[2] % 2) * 32768,
               a[2] \div 2 + (a[3] % 2) * 32768,
               a[3] \div 2 + (a[4] % 2) * 32768,
               a[4] \div 2 >>

(* zig-zag: 0, -1, 1, -2, 2, ...  <->  0, 1, 2, 3, 4, ... *)
ZigZag(n)   == IF WIsNeg(n) THEN WNot(WShl1(n)) ELSE WShl1(n)
UnZigZag(z) == IF WOdd(z) THEN WNot(WShr1(z)) ELSE WShr1(z)

-----------------------------------------------------------------------------
(* u-varint.  A group is a number below 128; group i (from 0) has weight   *)
(* 2^(7 i).  Ten groups hold 70 bits, so the tenth one may be 0 or 1 only. *)

Pow2(k) == 2 ^ k

GroupOf(w, i) ==
  LET bit == 7 * i
      k   == bit \div 16 + 1
      s   == bit % 16
      lo  == IF k <= 4 THEN w[k] \div Pow2(s) ELSE 0
      hi  == IF k + 1 <= 4 /\ s > 9 THEN (w[k + 1] % Pow2(s - 9)) * Pow2(16 - s) ELSE 0
  IN (lo + hi) % 128

(* number of groups of the minimal encoding *)
GroupCount(w) ==
  LET used == {i \in 0..9 : GroupOf(w, i) # 0}
  IN IF used = {} THEN 1
     ELSE (CHOOSE m \in used : \A j \in used : j <= m) + 1

(* add one group to an accumulated word; the caller guarantees i <= 9 *)
AddGroup(w, i, g) ==
  LET bit == 7 * i
      k   == bit \div 16 + 1
      s   == bit % 16
      v   == g * Pow2(s)
  IN [j \in 1..4 |-> IF j = k THEN w[j] + (v % LB)
                     ELSE IF j = k + 1 THEN w[j] + (v \div LB)
                     ELSE w[j]]

(* does group i with value g still fit in 64 bits? *)
GroupFits(i, g) == i < 9 \/ (i = 9 /\ g <= 1)

(* the minimal u-varint of a word as bytes *)
UVarint(w) ==
  LET n == GroupCount(w)
  IN [i \in 1..n |-> GroupOf(w, i - 1) + IF i < n THEN 128 ELSE 0]

(* the u-varint of a word padded with zero groups to n bytes (n >= minimal) *)
UVarintPadded(w, n) ==
  [i \in 1..n |-> GroupOf(w, i - 1) + IF i < n THEN 128 ELSE 0]

IVarint(n) == UVarint(ZigZag(n))

(* Address arithmetic of the format: an address is stored as the signed    *)
(* difference to the previous one, modulo 2^64.                            *)
AddrDiff(cur, target) == WSub(target, cur)
AddrMove(cur, diff)   == WAdd(cur, diff)
=============================================================================
