------------------------------- MODULE P_C14 -------------------------------
(***************************************************************************)
(* Round-robin probing.  While who is known (and who of them is active)    *)
(* stays the same, with n active members, every round pings exactly one    *)
(* active member and every window of 2n - 1 rounds pings each of them.     *)
(***************************************************************************)
EXTENDS Obs

MInit(h) == [b |-> BInit(h), tm |-> <<>>, gap |-> [x \in {} |-> 0], bad |-> "",
             n |-> [ev |-> 0, rounds |-> 0, stable |-> 0, windows |-> 0, withdown |-> 0, tight |-> 0, maxactive |-> 0]]

RECURSIVE Epochs(_, _, _)
Epochs(tm, out, ep) ==
  IF out = <<>> THEN tm
  ELSE LET o == Head(out)
       IN IF IsTimer(o) THEN Epochs(Append(tm, ep), Tail(out), ep)
          ELSE Epochs(tm, Tail(out), IF BumpsEpoch(o) THEN ep + 1 ELSE ep)

Known(v) == {<<a, v[a][1], v[a][3] = Down>> : a \in DOMAIN v}

MStep(m, e) ==
  IF Panicked(e) THEN m ELSE
  LET b == m.b
      c == e.c
      v == MemAfter(b, e)
      round == c.op = "timer" /\ c.t = "probe" /\ m.tm[c.n] = b.ep /\ b.conn = "active" /\ ~EncodeFailed(e)
      pings == SelectSeq(e.out, LAMBDA o : IsSend(o) /\ o.hdr /\ o.kind = "ping")
      act == ActiveIds(v)
      n == Cardinality(act)
      same == Known(v) = Known(b.mem)
      tgt == IF pings = <<>> THEN <<>> ELSE pings[1].to
      g0 == IF same /\ DOMAIN m.gap = act THEN m.gap ELSE [x \in act |-> 0]
      g == IF ~round \/ ~same THEN g0 ELSE [x \in act |-> IF x = tgt THEN 0 ELSE g0[x] + 1]
      bad == FirstBad(<<
        <<round /\ n > 0 => Len(pings) = 1, "a probe round did not ping exactly one member">>,
        <<round => \A i \in DOMAIN pings : pings[i].to[1] # e.me[1], "a probe round pinged the own address">>,
        <<round => \A i \in DOMAIN pings : pings[i].to \in act, "a probe round pinged a member that is not active">>,
        <<\A x \in DOMAIN g : g[x] < 2 * n - 1 \/ (n = 1 /\ g[x] = 0), "an active member was not probed within 2n-1 rounds">> >>)
      z == m.n
  IN [b |-> BStep(b, e), tm |-> Epochs(m.tm, e.out, b.ep + B2N(ResetCall(e))), gap |-> g, bad |-> bad,
      n |-> [ev |-> z.ev + 1, rounds |-> z.rounds + B2N(round), stable |-> z.stable + B2N(round /\ same),
             windows |-> z.windows + B2N(round /\ same /\ tgt \in DOMAIN g0 /\ g0[tgt] > 0),
             withdown |-> z.withdown + B2N(round /\ \E a \in DOMAIN v : v[a][3] = Down),
             tight |-> z.tight + B2N(round /\ n > 1 /\ tgt \in DOMAIN g0 /\ g0[tgt] = 2 * n - 2),
             maxactive |-> Max2(z.maxactive, n)]]
=============================================================================
