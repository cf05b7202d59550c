------------------------------- MODULE SmdWordZ -------------------------------
(***************************************************************************)
(* The integer encodings over unbounded integers, for Apalache: not words  *)
(* with limbs at a boundary (MCWord) but every 64-bit value and every byte *)
(* string.  Three machines side by side, each ends within ten steps, so    *)
(* that a check of that length is complete.                                *)
(*                                                                         *)
(*  writer+reader: the value val is written in groups of seven bits and    *)
(*    read back at once; got is what has been read, rest what is left.     *)
(*  stranger: arbitrary bytes are read; sum is what they denote as a       *)
(*    number, without any limit.                                           *)
(*  sg, a, b: a signed word and two addresses.                             *)
(***************************************************************************)
EXTENDS Integers

W == 18446744073709551616
HalfW == 9223372036854775808

VARIABLES
  \* @type: Int;
  val,
  \* @type: Int;
  rest,
  \* @type: Int;
  got,
  \* @type: Int;
  n,
  \* @type: Int;
  last,
  \* @type: Bool;
  done,
  \* @type: Int;
  sum,
  \* @type: Int;
  m,
  \* @type: Bool;
  goes,
  \* @type: Str;
  st,
  \* @type: Int;
  sg,
  \* @type: Int;
  a,
  \* @type: Int;
  b

(* d * 128^k *)
\* @type: (Int, Int) => Int;
Shifted(d, k) ==
  CASE k = 0 -> d
    [] k = 1 -> d * 128
    [] k = 2 -> d * 16384
    [] k = 3 -> d * 2097152
    [] k = 4 -> d * 268435456
    [] k = 5 -> d * 34359738368
    [] k = 6 -> d * 4398046511104
    [] k = 7 -> d * 562949953421312
    [] k = 8 -> d * 72057594037927936
    [] k = 9 -> d * 9223372036854775808
    [] OTHER -> d * 1180591620717411303424

(* the predicted size *)
Size(v) ==
  CASE v < 128 -> 1
    [] v < 16384 -> 2
    [] v < 2097152 -> 3
    [] v < 268435456 -> 4
    [] v < 34359738368 -> 5
    [] v < 4398046511104 -> 6
    [] v < 562949953421312 -> 7
    [] v < 72057594037927936 -> 8
    [] v < 9223372036854775808 -> 9
    [] OTHER -> 10

Init ==
  /\ val \in Int /\ val >= 0 /\ val < W
  /\ rest = val /\ got = 0 /\ n = 0 /\ last = 0 /\ done = FALSE
  /\ sum = 0 /\ m = 0 /\ goes = TRUE /\ st = "run"
  /\ sg \in Int /\ sg >= -HalfW /\ sg < HalfW
  /\ a \in Int /\ a >= 0 /\ a < W
  /\ b \in Int /\ b >= 0 /\ b < W

WriteByte ==
  IF done THEN UNCHANGED <<val, rest, got, n, last, done>>
  ELSE LET low == rest % 128
           more == rest >= 128
       IN /\ got' = got + Shifted(low, n)
          /\ rest' = rest \div 128
          /\ n' = n + 1
          /\ last' = low
          /\ done' = ~more
          /\ UNCHANGED val

ReadByte ==
  IF st # "run" THEN UNCHANGED <<sum, m, goes, st>>
  ELSE \E low \in 0..127, more \in BOOLEAN :
         /\ sum' = sum + Shifted(low, m)
         /\ m' = m + 1
         /\ goes' = more
         /\ st' = IF m = 9 /\ (low > 1 \/ more) THEN "over"
                  ELSE IF more THEN "run" ELSE "ok"

Next == WriteByte /\ ReadByte /\ UNCHANGED <<sg, a, b>>

ZigZag(s) == IF s >= 0 THEN 2 * s ELSE -2 * s - 1
UnZigZag(z) == IF z % 2 = 0 THEN z \div 2 ELSE -((z + 1) \div 2)
Signed(w) == IF w >= HalfW THEN w - W ELSE w
Unsigned(s) == IF s < 0 THEN s + W ELSE s
Wrap(x) == IF x < 0 THEN x + W ELSE IF x >= W THEN x - W ELSE x
Diff(from, to) == Signed(Wrap(to - from))
Move(from, d) == Wrap(from + Unsigned(d))

Ends == n <= 10 /\ m <= 10
Roundtrip == done => got = val /\ rest = 0 /\ n = Size(val) /\ (n > 1 => last # 0)
(* what is read is what the bytes denote, and exactly what does not fit is refused *)
Exact == /\ st = "ok" => sum < W
         /\ st = "over" => m = 10 /\ (sum >= W \/ goes)
         /\ st = "run" => m < 10
Signs == /\ ZigZag(sg) >= 0 /\ ZigZag(sg) < W
         /\ UnZigZag(ZigZag(sg)) = sg
         /\ ZigZag(UnZigZag(a)) = a
         /\ UnZigZag(a) >= -HalfW /\ UnZigZag(a) < HalfW
Address == /\ Diff(a, b) >= -HalfW /\ Diff(a, b) < HalfW
           /\ Move(a, Diff(a, b)) = b
Inv == Ends /\ Roundtrip /\ Exact /\ Signs /\ Address
(* a control: not every value fits into nine bytes *)
NineBytes == n <= 9
=============================================================================
