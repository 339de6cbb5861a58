------------------------------- MODULE P_C13 -------------------------------
(***************************************************************************)
(* Timer epochs.  Every timer is delivered at most once; tm is the list of *)
(* all timers issued, with the epoch of their issue; open the indices of   *)
(* those not delivered yet.                                                *)
(***************************************************************************)
EXTENDS Obs

MInit(h) == [b |-> BInit(h), tm |-> <<>>, open |-> {}, ub |-> 0, cb |-> 0, ord |-> TRUE, lost |-> FALSE, bad |-> "",
             n |-> [ev |-> 0, stale |-> 0, live |-> 0, inorder |-> 0, incomplete |-> 0, epochs |-> 0,
                    far |-> 0, wrapped |-> 0, disabled |-> 0, refused |-> 0, activations |-> 0, late |-> 0]]

RECURSIVE IssueT(_, _, _, _)
IssueT(tm, out, ep, now) ==
  IF out = <<>> THEN tm
  ELSE LET o == Head(out)
       IN IF IsTimer(o) THEN IssueT(Append(tm, [t |-> o.t, ep |-> ep, dl |-> now + o.after]), Tail(out), ep, now)
          ELSE IssueT(tm, Tail(out), IF BumpsEpoch(o) THEN ep + 1 ELSE ep, now)

Loops == {"probe", "pa", "pad", "pg"}
Enabled(cfg, t) == CASE t = "probe" -> TRUE [] t = "pa" -> cfg.pa # <<>> [] t = "pad" -> cfg.pad # <<>>
                     [] OTHER -> cfg.pg # <<>>

MStep(m, e) ==
  IF Panicked(e) \/ m.lost THEN m ELSE
  LET b == m.b
      c == e.c
      v0 == b.mem
      v == MemAfter(b, e)
      b2 == BStep(b, e)
      isT == c.op = "timer"
      t == m.tm[c.n]
      age == b.ep - t.ep
      stale == isT /\ t.t # "rm" /\ age > 0
      live == isT /\ t.t # "rm" /\ age = 0
      tm2 == IssueT(m.tm, e.out, b.ep + B2N(ResetCall(e)), e.now)
      open2 == (IF isT THEN m.open \ {c.n} ELSE m.open) \cup ((Len(m.tm) + 1)..Len(tm2))
      cur == {i \in open2 : tm2[i].ep = b2.ep /\ tm2[i].t # "rm"}
      cnt(x) == Cardinality({i \in cur : tm2[i].t = x})
      ordNow == ~isT \/ \A i \in m.open : m.tm[i].dl >= t.dl
      ord == m.ord /\ ordNow
      noop == e.out = <<>> /\ e.res = "Ok" /\ v = v0 /\ e.ub = m.ub /\ e.cb = m.cb /\ e.me = b.me /\ e.rx = <<>>
      pings == SelectSeq(e.out, LAMBDA o : IsSend(o) /\ o.hdr /\ o.kind = "ping")
      enc == EncodeFailed(e)
      (* the token is 8 bits wide: 256 epochs later it means the current one *)
      wrapped == stale /\ age % 256 = 0
      bad == IF wrapped THEN "" ELSE FirstBad(<<
        <<b2.conn = "active" => cnt("probe") = 1, "an active instance must have exactly one outstanding probe timer">>,
        <<b2.conn = "active" => \A x \in Loops \ {"probe"} :
              IF Enabled(b2.cfg, x) THEN cnt(x) = 1 ELSE cnt(x) <= 1,
          "an active instance must have exactly one outstanding timer per enabled periodic task">>,
        <<b2.conn # "active" => cur = {}, "an instance that is not active has an effective timer">>,
        <<stale => noop, "a stale timer had an effect">>,
        <<ord /\ isT => e.res = "Ok" \/ enc, "timer delivered in order returned an error">>,
        <<isT => e.res \in {"Ok", "IncompleteProbeCycle"} \/ enc, "out-of-order delivery yields more than IncompleteProbeCycle">>,
        <<isT /\ e.res = "IncompleteProbeCycle" => t.t = "probe" /\ age = 0, "IncompleteProbeCycle from something else than a live probe timer">>,
        <<isT /\ live /\ t.t = "probe" /\ b.conn = "active" =>
              \/ Len(pings) = 1 \/ enc
              \* out of order, and the ping cannot be encoded either
              \/ e.res = "IncompleteProbeCycle" /\ \E o \in Rng(Timers(e)) : o.t = "ind", "probe loop did not resume">>,
        <<c.op = "setcfg" /\ (c.cfg.pp # b.cfg.pp \/ c.cfg.rtt # b.cfg.rtt
              \/ \E x \in Loops : ~Enabled(b.cfg, x) /\ Enabled(c.cfg, x)) => e.res = "InvalidConfig",
          "set_config accepted a change of probe timing or enabled a periodic task">> >>)
      z == m.n
  IN [b |-> b2, tm |-> tm2, open |-> open2, ub |-> e.ub, cb |-> e.cb, ord |-> ord, lost |-> wrapped, bad |-> bad,
      n |-> [ev |-> z.ev + 1, stale |-> z.stale + B2N(stale), live |-> z.live + B2N(live),
             inorder |-> z.inorder + B2N(isT /\ ord), incomplete |-> z.incomplete + B2N(e.res = "IncompleteProbeCycle"),
             epochs |-> z.epochs + (b2.ep - b.ep), far |-> z.far + B2N(stale /\ age > 100), wrapped |-> z.wrapped + B2N(wrapped),
             disabled |-> z.disabled + B2N(live /\ t.t \in Loops /\ ~Enabled(b.cfg, t.t)),
             refused |-> z.refused + B2N(c.op = "setcfg" /\ e.res # "Ok"),
             activations |-> z.activations + B2N(b.conn # "active" /\ b2.conn = "active"),
             late |-> z.late + B2N(isT /\ e.now > t.dl)]]
=============================================================================
