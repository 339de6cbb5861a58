-------------------------------- MODULE Net --------------------------------
(***************************************************************************)
(* A network of instances, each one the machine of Foca.tla; the instance  *)
(* at address a is inst[a].  Datagrams in flight form a bag.               *)
(***************************************************************************)
EXTENDS Foca

(* a sent datagram as the receiver sees it *)
Arrives(o) ==
  LET ups == SetToSeq(o.ups)
  IN [op |-> "data", len |-> 100, hdr |-> TRUE, src |-> o.src, inc |-> o.inc, dst |-> o.dst, kind |-> o.kind, pn |-> o.pn,
      tgt |-> o.tgt, after |-> IF o.cnt = -1 /\ o.items = <<>> THEN 0 ELSE 2, cnt |-> o.cnt, ups |-> ups, mok |-> TRUE,
      items |-> o.items, tok |-> TRUE]

SentBy(w) == SelectSeq(w.out, LAMBDA o : o.o = "send")
NotesOf(w) == SelectSeq(w.out, LAMBDA o : o.o = "note")
TimersOf(w) == SelectSeq(w.out, LAMBDA o : o.o = "timer")

(* bag of datagrams: a function datagram -> count *)
NoNet == [x \in {} |-> 0]
RECURSIVE PutAll(_, _)
PutAll(b, s) ==
  IF s = <<>> THEN b
  ELSE PutAll(IF Head(s) \in DOMAIN b THEN [b EXCEPT ![Head(s)] = @ + 1] ELSE (Head(s) :> 1) @@ b, Tail(s))
TakeOne(b, x) == IF b[x] > 1 THEN [b EXCEPT ![x] = @ - 1] ELSE [y \in (DOMAIN b) \ {x} |-> b[y]]

MsgCall(f, o, orc) == CallW(Begin(f, FALSE, orc, <<>>), Arrives(o))
=============================================================================
