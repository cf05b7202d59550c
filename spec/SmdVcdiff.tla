------------------------------ MODULE SmdVcdiff ------------------------------
(***************************************************************************)
(* A VCDIFF delta (RFC 3284, default code table, no secondary compression) *)
(* as a state machine: it consumes the delta's bytes and builds the target *)
(* file.  One step per header, window and instruction.                     *)
(*                                                                         *)
(* Two dialects.  "rfc": the RFC.  "lib": how vcdiff-reader 1.0.0, on      *)
(* which the conversion rests, understands it; it differs in the order of  *)
(* the combined ADD+COPY opcodes 166..246, and in periodic copies, whose   *)
(* size it takes to include the period they start from.                    *)
(*                                                                         *)
(* v.st ends as "ok"; "bad" (damaged or inconsistent); or "unclear": a     *)
(* construct on which nothing is claimed.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS DeltaOf(_), SourceOf(_), DialectOf(_)
VARIABLES cid, v

B(i) == DeltaOf(cid)[i + 1]                      \* byte at offset i
Size == Len(DeltaOf(cid))

(* integer, big endian base 128, at offset p and before offset e: <<"ok", n, end>> | <<"eof">> | <<"big">> *)
RECURSIVE IntAt(_, _, _, _)
IntAt(p, e, acc, k) ==
  IF p >= e THEN <<"eof">>
  ELSE IF k >= 5 \/ acc > 8000 THEN <<"big">>
  ELSE LET n == (128 * acc) + (B(p) % 128)
       IN IF B(p) < 128 THEN <<"ok", n, p + 1>> ELSE IntAt(p + 1, e, n, k + 1)
(* the reader library measures fields by the shortest form of their value: nothing is claimed of padded ones *)
VInt(p, e) == IF p < e /\ B(p) = 128 THEN <<"big">> ELSE IntAt(p, e, 0, 0)

(* The default code table. *)
I(t, n, m) == [t |-> t, n |-> n, m |-> m]
Nop == I("N", 0, 0)
Table(op, dialect) ==
  CASE op = 0 -> <<I("R", 0, 0), Nop>>
    [] op \in 1..18 -> <<I("A", op - 1, 0), Nop>>
    [] op \in 19..162 -> LET k == (op - 19) % 16 IN <<I("C", IF k = 0 THEN 0 ELSE k + 3, (op - 19) \div 16), Nop>>
    [] op \in 163..234 ->
         LET k == op - 163
         IN IF dialect = "rfc" THEN <<I("A", 1 + ((k % 12) \div 3), 0), I("C", 4 + (k % 3), k \div 12)>>
            ELSE <<I("A", 1 + (k \div 18), 0), I("C", 4 + (k % 3), (k % 18) \div 3)>>
    [] op \in 235..246 ->
         LET k == op - 235
         IN IF dialect = "rfc" THEN <<I("A", 1 + (k % 4), 0), I("C", 4, 6 + (k \div 4))>>
            ELSE <<I("A", 1 + (k \div 3), 0), I("C", 4, 6 + (k % 3))>>
    [] OTHER -> <<I("C", 4, op - 247), I("A", 1, 0)>>

NoWin == [k |-> 0, sss |-> 0, ssp |-> 0, tgt |-> 0, d |-> 0, de |-> 0, i |-> 0, ie |-> 0, a |-> 0, ae |-> 0, made |-> 0, start |-> 0]
NoCache == [near |-> <<0, 0, 0, 0>>, next |-> 0, same |-> <<>>]       \* same: pairs <<slot, address>>, latest last
VInit == v = [st |-> "run", ph |-> "header", p |-> 0, w |-> NoWin, c |-> NoCache, out |-> <<>>, why |-> ""]
Stop(st, why) == v' = [v EXCEPT !.st = st, !.why = why]

Header ==
  /\ v.ph = "header"
  /\ UNCHANGED cid
  /\ IF Size < 5 THEN Stop("bad", "short")
     ELSE IF B(0) # 214 \/ B(1) # 195 \/ B(2) # 196 \/ B(3) # 0 THEN Stop("bad", "magic")
     ELSE IF B(4) # 0 THEN Stop("unclear", "secondary compression or code table")
     ELSE v' = [v EXCEPT !.ph = "window", !.p = 5]

(* the window header's integers, in order *)
RECURSIVE Ints(_, _)
Ints(p, n) == IF n = 0 THEN <<"ok", <<>>, p>>
              ELSE LET x == VInt(p, Size) IN IF x[1] # "ok" THEN <<x[1], <<>>, p>>
                   ELSE LET r == Ints(x[3], n - 1) IN <<r[1], <<x[2]>> \o r[2], r[3]>>

Window ==
  /\ v.ph = "window"
  /\ UNCHANGED cid
  /\ IF v.p = Size THEN Stop("ok", "")
     ELSE IF B(v.p) \notin 0..2 THEN Stop("unclear", "window indicator")
     ELSE LET k  == B(v.p)
              h1 == IF k = 0 THEN <<"ok", <<0, 0>>, v.p + 1>> ELSE Ints(v.p + 1, 2)
              h2 == IF h1[1] = "ok" THEN Ints(h1[3], 2) ELSE h1
              h3 == IF h2[1] = "ok" /\ h2[3] < Size THEN Ints(h2[3] + 1, 3) ELSE <<"eof", <<>>, 0>>
          IN IF h3[1] # "ok" THEN Stop(IF h3[1] = "eof" THEN "bad" ELSE "unclear", "window header")
             ELSE IF B(h2[3]) # 0 THEN Stop("unclear", "compressed window")
             ELSE LET d == h3[3]
                      i == d + h3[2][1]
                      a == i + h3[2][2]
                      w == [k |-> k, sss |-> h1[2][1], ssp |-> h1[2][2], tgt |-> h2[2][2], d |-> d, de |-> i, i |-> i, ie |-> a, a |-> a,
                            ae |-> a + h3[2][3], made |-> 0, start |-> Len(v.out)]
                  IN IF w.ae > Size THEN Stop("bad", "truncated window")
                     ELSE IF w.ie = w.i THEN Stop("unclear", "no instructions")
                     ELSE IF w.ssp + w.sss > (IF k = 2 THEN Len(v.out) ELSE Len(SourceOf(cid))) THEN Stop("unclear", "segment outside of its file")
                     ELSE v' = [v EXCEPT !.ph = "inst", !.w = w, !.c = NoCache]

Here(w) == w.sss + w.made
(* the byte at offset u of the window's string U *)
UByte(w, out, u) == IF u < w.sss THEN IF w.k = 2 THEN out[w.ssp + u + 1] ELSE SourceOf(cid)[w.ssp + u + 1]
                    ELSE out[w.start + u - w.sss + 1]

SameAt(c, slot) == LET hit == {n \in 1..Len(c.same) : c.same[n][1] = slot}
                   IN IF hit = {} THEN 0 ELSE c.same[CHOOSE n \in hit : \A m \in hit : m <= n][2]
Remember(c, a) == [near |-> [c.near EXCEPT ![c.next + 1] = a], next |-> (c.next + 1) % 4, same |-> Append(c.same, <<a % 768, a>>)]

(* One instruction of an opcode applied to a state s (v, or v after the first one); s.st changes on failure. *)
Fail(s, st, why) == [s EXCEPT !.st = st, !.why = why]
Emit(s, bytes) == [s EXCEPT !.out = @ \o bytes, !.w.made = @ + Len(bytes)]
(* n bytes from offset u on, where what lies from "here" on is being produced on the way *)
Periodic(w, out, u, n) == LET p == Here(w) - u IN out \o [x \in 1..n |-> UByte(w, out, u + ((x - 1) % p))]

Do(s, ins) ==
  IF s.st # "run" \/ ins.t = "N" THEN s
  ELSE
  LET sz == IF ins.n = 0 THEN VInt(s.w.i, s.w.ie) ELSE <<"ok", ins.n, s.w.i>>
  IN IF sz[1] # "ok" THEN Fail(s, "unclear", "size")
     ELSE
     LET n == sz[2]
         t == [s EXCEPT !.w.i = sz[3]]
     IN CASE n > s.w.tgt -> Fail(t, "bad", "window overflows")
          [] ins.t = "A" -> IF t.w.d + n > t.w.de THEN Fail(t, "unclear", "data")
                            ELSE Emit([t EXCEPT !.w.d = @ + n], [x \in 1..n |-> B(t.w.d + x - 1)])
          [] ins.t = "R" -> IF t.w.d + 1 > t.w.de THEN Fail(t, "unclear", "data")
                            ELSE Emit([t EXCEPT !.w.d = @ + 1], [x \in 1..n |-> B(t.w.d)])
          [] OTHER ->
               LET ad == IF ins.m < 6 THEN VInt(t.w.a, t.w.ae) ELSE IF t.w.a < t.w.ae THEN <<"ok", B(t.w.a), t.w.a + 1>> ELSE <<"eof">>
               IN IF ad[1] # "ok" THEN Fail(t, "unclear", "address")
                  ELSE
                  LET addr == CASE ins.m = 0 -> ad[2]
                                [] ins.m = 1 -> Here(t.w) - ad[2]
                                [] ins.m \in 2..5 -> t.c.near[ins.m - 1] + ad[2]
                                [] OTHER -> SameAt(t.c, (ins.m - 6) * 256 + ad[2])
                      here == Here(t.w)
                      \* what the instruction produces
                      overlap == addr + n > here
                      made == IF overlap /\ DialectOf(cid) = "lib" THEN addr + n - here ELSE n
                      u == [t EXCEPT !.w.a = ad[3], !.c = Remember(@, addr)]
                  IN CASE addr < 0 \/ addr >= here -> Fail(t, "bad", "address outside of U")
                       [] n = 0 -> Fail(t, "unclear", "empty copy")
                       [] addr < t.w.sss /\ addr + n > t.w.sss -> Fail(t, "unclear", "copy across S and T")
                       [] OTHER -> [u EXCEPT !.out = IF overlap /\ DialectOf(cid) = "lib"
                                                     THEN \* the period [addr, here) repeated
                                                          Periodic(t.w, t.out, addr, made)
                                                     ELSE IF overlap THEN Periodic(t.w, t.out, addr, n)
                                                     ELSE @ \o [x \in 1..n |-> UByte(t.w, t.out, addr + x - 1)],
                                             !.w.made = @ + made]

(* the data section must not run into the instructions *)
Opcode ==
  /\ v.ph = "inst" /\ v.w.i < v.w.ie
  /\ UNCHANGED cid
  /\ LET op == B(v.w.i)
         s0 == [v EXCEPT !.w.i = @ + 1]
         tb == Table(op, DialectOf(cid))
         s1 == Do(s0, tb[1])
         s2 == Do(s1, tb[2])
     IN v' = IF s2.st = "run" /\ s2.w.made > s2.w.tgt THEN Fail(s2, "bad", "window overflows") ELSE s2

EndWindow ==
  /\ v.ph = "inst" /\ v.w.i >= v.w.ie
  /\ UNCHANGED cid
  /\ IF v.w.made # v.w.tgt THEN Stop("bad", "window falls short")
     ELSE v' = [v EXCEPT !.ph = "window", !.p = v.w.ae, !.w = NoWin]

VNext == v.st = "run" /\ (Header \/ Window \/ Opcode \/ EndWindow)
VStopped == v.st # "run"
=============================================================================
