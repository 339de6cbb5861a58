------------------------------ MODULE Backlog ------------------------------
(***************************************************************************)
(* The dissemination backlog of membership updates: at most one entry per  *)
(* address, the most recently accepted one.  An entry is                   *)
(* [u |-> <<addr, gen, inc, st>>, tx |-> transmissions left].              *)
(***************************************************************************)
EXTENDS Obs

(* Length of an encoded member, by codec: 0 and 4 hand-written, 1 bincode  *)
(* standard, 2 postcard, 3 bincode legacy                                  *)
Pad(var, a, g) == CASE var = 0 -> 0 [] var = 1 -> (a * 5 + g * 3) % 7 [] OTHER -> (a * 37 + g * 11) % 61
BV(x) == IF x < 251 THEN 1 ELSE 3
PV(x) == IF x < 128 THEN 1 ELSE IF x < 16384 THEN 2 ELSE 3
EncLen(codec, var, u) ==
  LET p == Pad(var, u[1], u[2])
  IN CASE codec \in {0, 4} -> 7 + p + 3
       [] codec = 1 -> BV(u[1]) + BV(u[2]) + 1 + p + BV(u[3]) + 1
       [] codec = 2 -> PV(u[1]) + PV(u[2]) + 1 + p + PV(u[3]) + 1
       [] OTHER -> 4 + 2 + 8 + p + 2 + 4

EmptyBk == [x \in {} |-> 0]
Enq(bk, u, tx) == Put(bk, u[1], [u |-> u, tx |-> tx])

(* Applying updates in order: <<view, backlog>>; only changes are queued.  *)
RECURSIVE ApplyAll(_, _, _, _, _, _)
ApplyAll(v, bk, us, me, tx, bc) ==
  IF us = <<>> THEN <<v, bk>>
  ELSE LET u0 == Head(us)
           u == AsSeenBy(me, u0)
       IN IF Mine(me, u0) THEN ApplyAll(v, bk, Tail(us), me, tx, bc)
          ELSE IF Changes(v, u)
          THEN ApplyAll(Absorb(v, u), IF bc THEN Enq(bk, u, tx) ELSE bk, Tail(us), me, tx, bc)
          ELSE ApplyAll(v, bk, Tail(us), me, tx, bc)

(* One transmission of the updates in set A of addresses *)
Spend(bk, A) ==
  LET keep == {a \in DOMAIN bk : ~(a \in A /\ bk[a].tx = 1)}
  IN [a \in keep |-> IF a \in A THEN [bk[a] EXCEPT !.tx = @ - 1] ELSE bk[a]]

SumLen(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
=============================================================================
