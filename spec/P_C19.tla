------------------------------- MODULE P_C19 -------------------------------
(* Never choose the own address as a destination (relays excluded).        *)
EXTENDS Obs

MInit(h) == [b |-> BInit(h), bad |-> "",
             n |-> [ev |-> 0, sends |-> 0, owndown |-> 0, padfired |-> 0, padown |-> 0]]

MStep(m, e) ==
  IF Panicked(e) THEN m ELSE
  LET b == m.b
      ss == Sends(e)
      own(o) == o.to[1] = (IF o.hdr THEN o.src[1] ELSE e.me[1]) \/ o.to[1] = e.me[1]
      badOne(o) == own(o) /\ ~(o.hdr /\ o.kind \in {"indping", "fwdack"}) /\ ~(e.c.op = "announce" /\ e.c.id[1] = b.me[1])
      w == SelectSeq(ss, badOne)
      bad == IF w = <<>> THEN "" ELSE "own address chosen as destination of " \o (IF w[1].hdr THEN w[1].kind ELSE "?")
      pad == e.c.op = "timer" /\ e.c.t = "pad"
      hasOwn == Has(b.mem, b.me[1])
  IN [b |-> BStep(b, e), bad |-> bad,
      n |-> [ev |-> m.n.ev + 1, sends |-> m.n.sends + Len(ss),
             owndown |-> m.n.owndown + B2N(hasOwn), padfired |-> m.n.padfired + B2N(pad),
             padown |-> m.n.padown + B2N(pad /\ hasOwn)]]
=============================================================================
