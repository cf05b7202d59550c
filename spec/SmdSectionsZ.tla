----------------------------- MODULE SmdSectionsZ -----------------------------
(***************************************************************************)
(* Dividing operations into sections as a scan, for Apalache: operation    *)
(* lists of any length, operations of every length and every requested     *)
(* size.  IndInv is inductive (it holds at first, and every step from any  *)
(* state in which it holds leads to one in which it holds), so it holds    *)
(* after any number of operations.  MCSections checks the same of the      *)
(* freer machine of SmdSections, up to a few operations.                   *)
(***************************************************************************)
EXTENDS Integers

MaxInst == 65535
MaxSection == 16777215
W == 18446744073709551616
U32 == 4294967296

VARIABLES
  \* @type: Int;
  req,
  (* the open section: operations, bytes of output, bytes of literals *)
  \* @type: Int;
  cnt,
  \* @type: Int;
  out,
  \* @type: Int;
  adds,
  (* closed ones, summed up *)
  \* @type: Int;
  ccnt,
  \* @type: Int;
  cout,
  \* @type: Int;
  cadds,
  (* what has been given *)
  \* @type: Int;
  seen,
  \* @type: Int;
  len,
  \* @type: Int;
  lits,
  (* all closed ones are within the limit, not empty, and nearly full *)
  \* @type: Bool;
  good

Eff == IF req < MaxInst THEN MaxInst ELSE IF req > MaxSection THEN MaxSection ELSE req

Init ==
  /\ req \in Int /\ req >= 0 /\ req < W
  /\ cnt = 0 /\ out = 0 /\ adds = 0 /\ ccnt = 0 /\ cout = 0 /\ cadds = 0 /\ seen = 0 /\ len = 0 /\ lits = 0 /\ good = TRUE

Take(l, add) ==
  LET full == out + l > Eff
      a == IF add THEN l ELSE 0
  IN /\ cnt' = (IF full THEN 0 ELSE cnt) + 1
     /\ out' = (IF full THEN 0 ELSE out) + l
     /\ adds' = (IF full THEN 0 ELSE adds) + a
     /\ ccnt' = (IF full THEN ccnt + cnt ELSE ccnt)
     /\ cout' = (IF full THEN cout + out ELSE cout)
     /\ cadds' = (IF full THEN cadds + adds ELSE cadds)
     /\ good' = (good /\ (full => cnt > 0 /\ out > 0 /\ out <= Eff /\ out > Eff - MaxInst /\ adds <= out /\ cnt <= out))
     /\ seen' = seen + 1 /\ len' = len + l /\ lits' = lits + a
     /\ UNCHANGED req

Next == \E l \in Int : l >= 1 /\ l <= MaxInst /\ \E add \in BOOLEAN : Take(l, add)

(* what has been given is what the sections hold, and the last one may be closed at any time *)
IndInv ==
  /\ req >= 0 /\ req < W
  /\ good
  /\ cnt >= 0 /\ adds >= 0 /\ adds <= out /\ cnt <= out /\ out <= Eff
  /\ ccnt >= 0 /\ cout >= 0 /\ cadds >= 0
  /\ ccnt + cnt = seen /\ cout + out = len /\ cadds + adds = lits
  /\ (cnt = 0 => seen = 0 /\ out = 0)
  (* 32 bits hold what is counted *)
  /\ out + MaxInst < U32
IndInit ==
  /\ req \in Int /\ cnt \in Int /\ out \in Int /\ adds \in Int /\ ccnt \in Int /\ cout \in Int /\ cadds \in Int
  /\ seen \in Int /\ len \in Int /\ lits \in Int /\ good \in BOOLEAN
  /\ IndInv
(* a control: an operation need not fit into the section that is open *)
NeverCloses == cout = 0
=============================================================================
