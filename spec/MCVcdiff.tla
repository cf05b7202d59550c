------------------------------- MODULE MCVcdiff -------------------------------
(***************************************************************************)
(* A writer of VCDIFF deltas: windows of every kind, instructions chosen   *)
(* one after the other with every addressing mode that can express them    *)
(* and, where one exists, a combined opcode.  The finished delta is read   *)
(* by the decoder machine, which must reach exactly the target the writer  *)
(* meant.  Every finished delta is emitted as a case for the code.         *)
(***************************************************************************)
EXTENDS SmdVcdiff, Json, FiniteSets
CONSTANTS Src, MaxInst, MaxWin, Dialect
VARIABLES w      \* the writer
vars == <<cid, v, w>>
M_Delta(c) == c.delta
M_Source(c) == Src
M_Dialect(c) == Dialect

EmptyWin(k, ssp, sss) == [k |-> k, ssp |-> ssp, sss |-> sss, data |-> <<>>, inst |-> <<>>, addr |-> <<>>, made |-> <<>>, c |-> NoCache, n |-> 0, last |-> Nop]
Init ==
  /\ w = [ph |-> "win", bytes |-> <<214, 195, 196, 0, 0>>, target |-> <<>>, wins |-> 0, cur |-> EmptyWin(0, 0, 0)]
  /\ cid = [delta |-> <<>>]
  /\ VInit
Stay == UNCHANGED <<cid, v>>

Open ==
  /\ w.ph = "win" /\ w.wins < MaxWin /\ Stay
  /\ \/ w' = [w EXCEPT !.ph = "inst", !.cur = EmptyWin(0, 0, 0)]
     \/ \E p \in {0, 1}, l \in {3, Len(Src) - 1} : w' = [w EXCEPT !.ph = "inst", !.cur = EmptyWin(1, p, l)]
     \/ \E p \in {0, 2} : Len(w.target) > p /\ w' = [w EXCEPT !.ph = "inst", !.cur = EmptyWin(2, p, Len(w.target) - p)]

C == w.cur
WHere == C.sss + Len(C.made)
Seg == IF C.k = 2 THEN w.target ELSE Src
WByte(made, u) == IF u < C.sss THEN Seg[C.ssp + u + 1] ELSE made[u - C.sss + 1]
RECURSIVE WPeriodic(_, _, _)
WPeriodic(made, u, n) == IF n = 0 THEN <<>> ELSE LET b == WByte(made, u) IN <<b>> \o WPeriodic(Append(made, b), u + 1, n - 1)

(* opcode bytes and explicit size of a single instruction *)
Op1(i, n) == CASE i.t = "R" -> {<<0, n>>}
               [] i.t = "A" -> {<<1, n>>} \cup (IF n <= 17 THEN {<<1 + n>>} ELSE {})
               [] OTHER -> {<<19 + 16 * i.m, n>>} \cup (IF n \in 4..18 THEN {<<19 + (16 * i.m) + n - 3>>} ELSE {})
(* a combined opcode of the previous instruction and this one *)
Pair(a, b) == {op \in 163..255 : LET t == Table(op, Dialect) IN t[1] = a /\ t[2] = b}

Put(i, n, data, addr, made, c) ==
  \/ \E o \in Op1(i, n) :
       w' = [w EXCEPT !.cur = [C EXCEPT !.data = @ \o data, !.inst = @ \o o, !.addr = @ \o addr, !.made = @ \o made, !.c = c, !.n = @ + 1,
                                        !.last = IF Len(o) = 1 THEN [i EXCEPT !.n = n] ELSE Nop]]
  \/ /\ C.last.t # "N"
     /\ \E op \in Pair(C.last, [i EXCEPT !.n = n]) :
          w' = [w EXCEPT !.cur = [C EXCEPT !.data = @ \o data, !.inst = SubSeq(@, 1, Len(@) - 1) \o <<op>>, !.addr = @ \o addr, !.made = @ \o made,
                                           !.c = c, !.n = @ + 1, !.last = Nop]]

AddI == \E b \in {<<1>>, <<2, 3>>} : Put(I("A", 0, 0), Len(b), b, <<>>, b, C.c)
RunI == \E n \in {1, 3} : Put(I("R", 0, 0), n, <<9>>, <<>>, [x \in 1..n |-> 9], C.c)
Modes(addr) ==
  {<<0, addr>>, <<1, WHere - addr>>}
  \cup {<<1 + x, addr - C.c.near[x]>> : x \in {x \in 1..4 : C.c.near[x] <= addr /\ (x <= 2 \/ C.c.near[x] > 0)}}
  \cup (IF SameAt(C.c, addr % 768) = addr /\ C.c.same # <<>> THEN {<<6 + ((addr % 768) \div 256), addr % 256>>} ELSE {})
CopyI ==
  \E addr \in {0, 1, C.sss, WHere - 1, WHere - 2}, n \in {1, 4, 5} :
    /\ addr >= 0 /\ addr < WHere
    /\ ~(addr < C.sss /\ addr + n > C.sss)
    /\ LET overlap == addr + n > WHere
           len == IF overlap /\ Dialect = "lib" THEN addr + n - WHere ELSE n
       IN \E md \in Modes(addr) :
            Put(I("C", 0, md[1]), n, <<>>, <<md[2]>>, WPeriodic(C.made, addr, len), Remember(C.c, addr))

Instruct == w.ph = "inst" /\ C.n < MaxInst /\ Stay /\ (AddI \/ RunI \/ CopyI)

Close ==
  /\ w.ph = "inst" /\ C.n > 0 /\ Stay
  /\ LET seg == IF C.k = 0 THEN <<0>> ELSE <<C.k, C.sss, C.ssp>>
         lens == <<Len(C.made), 0, Len(C.data), Len(C.inst), Len(C.addr)>>
         win == seg \o <<Len(lens) + Len(C.data) + Len(C.inst) + Len(C.addr)>> \o lens \o C.data \o C.inst \o C.addr
     IN w' = [w EXCEPT !.ph = "win", !.bytes = @ \o win, !.target = @ \o C.made, !.wins = @ + 1, !.cur = EmptyWin(0, 0, 0)]
Finish ==
  /\ w.ph = "win" /\ w.wins > 0
  /\ w' = [w EXCEPT !.ph = "done"]
  /\ cid' = [delta |-> w.bytes]
  /\ PrintT(<<"CASE", ToJson([delta |-> w.bytes, src |-> Src, out |-> w.target])>>)
  /\ UNCHANGED v
Decode == w.ph = "done" /\ VNext /\ UNCHANGED w
Next == Open \/ Instruct \/ Close \/ Finish \/ Decode \/ (VStopped /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Means == VStopped => v.st = "ok" /\ v.out = w.target
MCSrc == <<11, 12, 13, 14, 15>>
=============================================================================
