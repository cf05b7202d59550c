------------------------------- MODULE SmdSliceZ -------------------------------
(***************************************************************************)
(* Cutting a range out of a contiguous operation list as a scan, for       *)
(* Apalache: lists of any length that begin anywhere, operations of every  *)
(* length and address, every range.  The rule for one operation is that of *)
(* SmdSlice (skip at the front, keep so many).  A witness, any position of *)
(* the range, follows what the list has there and what the slice has.      *)
(* IndInv is inductive.                                                    *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  (* the range, the witness *)
  \* @type: Int;
  from,
  \* @type: Int;
  to,
  \* @type: Int;
  q,
  (* the list so far covers [first, pos), the slice so far [from, got) *)
  \* @type: Int;
  first,
  \* @type: Int;
  pos,
  \* @type: Int;
  got,
  (* what list and slice address at q; how many entries of each cover it *)
  \* @type: Int;
  want,
  \* @type: Int;
  have,
  \* @type: Int;
  inList,
  \* @type: Int;
  inSlice,
  (* entries of the slice lie where the one before ends, inside their operation, and are not empty *)
  \* @type: Bool;
  good

Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y

Init ==
  /\ from \in Int /\ to \in Int /\ q \in Int /\ first \in Int
  /\ from >= 0 /\ from < to /\ from <= q /\ q < to /\ first >= 0 /\ first <= from
  /\ pos = first /\ got = from /\ want = 0 /\ have = 0 /\ inList = 0 /\ inSlice = 0 /\ good = TRUE

(* an operation of length n whose first byte is addressed by addr *)
Take(n, addr) ==
  LET skip == Max(from, pos) - pos
      keep == Min(to, pos + n) - Max(from, pos)
      here == pos <= q /\ q < pos + n
      p == pos + skip
      cut == addr + skip
      there == keep > 0 /\ p <= q /\ q < p + keep
  IN /\ pos' = pos + n
     /\ got' = (IF keep > 0 THEN got + keep ELSE got)
     /\ want' = (IF here THEN addr + (q - pos) ELSE want)
     /\ have' = (IF there THEN cut + (q - p) ELSE have)
     /\ inList' = (IF here THEN inList + 1 ELSE inList)
     /\ inSlice' = (IF there THEN inSlice + 1 ELSE inSlice)
     /\ good' = (good /\ (keep > 0 => p = got /\ skip >= 0 /\ skip < n /\ skip + keep <= n))
     /\ UNCHANGED <<from, to, q, first>>
Next == \E n \in Int, addr \in Int : n >= 1 /\ addr >= 0 /\ Take(n, addr)

IndInv ==
  /\ from >= 0 /\ from < to /\ from <= q /\ q < to /\ first >= 0 /\ first <= from /\ first <= pos
  /\ good
  /\ got = Max(from, Min(to, pos))
  /\ inList = (IF q < pos THEN 1 ELSE 0)
  /\ inSlice = inList
  /\ have = want
IndInit ==
  /\ from \in Int /\ to \in Int /\ q \in Int /\ first \in Int /\ pos \in Int /\ got \in Int
  /\ want \in Int /\ have \in Int /\ inList \in Int /\ inSlice \in Int /\ good \in BOOLEAN
  /\ IndInv
(* what it is for: once the list reaches the end of the range, the slice does *)
Whole == pos >= to => got = to /\ inSlice = 1 /\ have = want
Both == IndInv /\ Whole
(* a control: a slice need not keep whole operations *)
StaysBehind == got = from
=============================================================================
