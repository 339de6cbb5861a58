------------------------------- MODULE P_C10 -------------------------------
(* Incarnation discipline, self-refutation and reaction to one's own death *)
EXTENDS Obs

(* told: identity -> highest incarnation anybody told us                   *)
(* owe: former identities whose death is still to be gossiped              *)
MInit(h) == [b |-> BInit(h), own |-> OwnInit, told |-> [x \in {} |-> 0], dead |-> FALSE, ub |-> 0, bad |-> "",
             n |-> [ev |-> 0, susp |-> 0, bumps |-> 0, deaths |-> 0, rejoin |-> 0, max |-> 0, gossipdead |-> 0]]

RECURSIVE Tell(_, _)
Tell(t, us) ==
  IF us = <<>> THEN t
  ELSE LET u == Head(us)
           k == <<u[1], u[2]>>
       IN Tell(IF k \in DOMAIN t THEN (IF u[3] > t[k] THEN [t EXCEPT ![k] = u[3]] ELSE t)
               ELSE [x \in DOMAIN t \cup {k} |-> IF x = k THEN u[3] ELSE t[x]], Tail(us))

LiveKinds == {"ping", "ack", "pingreq", "indping", "indack", "fwdack", "feed"}

MStep(m, e) ==
  IF Panicked(e) THEN m ELSE
  LET b == m.b
      c == e.c
      w == OwnWalkOf(m.own, b, e)
      heard == IF c.op = "data" /\ c.hdr
               THEN <<<<c.src[1], c.src[2], c.inc>>>> \o c.ups
               ELSE IF c.op = "apply" THEN c.ups ELSE <<>>
      told == Tell(m.told, heard)
      acc == DataAccepted(b, e)
      sact == acc /\ SenderActive(b.mem, c.src)
      tu == acc /\ c.kind = "turnundead"
      notes == Notes(e)
      rejoin == \E o \in Rng(notes) : o.k = "rejoin"
      defunct == \E o \in Rng(notes) : o.k = "defunct"
      conn2 == ConnAfter(BConn0(b, e), e.out)
      (* definitely learned that the identity in use at that point is Down *)
      deaths == w.deaths \o (IF tu /\ ~sact THEN <<w.me>> ELSE <<>>)
      renews == CanRenew(b.ren, b.me)
      old == Sends(e)
      (* identities used while the call ran *)
      used == {b.me, e.me, w.me} \cup {w.deaths[i] : i \in DOMAIN w.deaths}
                \cup {o.a : o \in {x \in Rng(notes) : x.k = "rejoin"}}
      ours == SelectSeq(old, LAMBDA o : o.hdr)
      enc == EncodeFailed(e)
      asMe == SentAs(e, b.me)
      one == w.touch = 1 /\ w.deaths = <<>> /\ ~tu
      reset == ResetCall(e) \/ rejoin
      own2 == OwnAfter(m.own, b, e)
      suspNow == {u[3] : u \in {x \in Rng(AppliedUpdates(b, e)) : Mine(b.me, x) /\ x[4] = Suspect}}
      goss == {o \in Rng(old) : o.hdr /\ o.kind = "gossip"}
      v2 == MemAfter(b, e)
      (* a member that was and stayed active throughout the call *)
      witness == \E a \in DOMAIN b.mem : Active(b.mem[a]) /\ Has(v2, a) /\ v2[a][1] = b.mem[a][1] /\ Active(v2[a])
                     /\ \A u \in Rng(AppliedUpdates(b, e)) : u[1] # a
      bad == FirstBad(<<
        <<\A i \in DOMAIN ours : ours[i].src \in used, "datagram sent under an identity that is not ours">>,
        <<ResetCall(e) \/ \A i \in DOMAIN asMe : asMe[i].inc >= m.own.lo, "own incarnation decreased">>,
        <<ResetCall(e) \/ w.touch > 0 \/ \A i \in DOMAIN asMe : asMe[i].inc <= m.own.hi, "own incarnation grew without a suspicion">>,
        <<suspNow # {} \/ reset \/ own2.hi <= m.own.hi \/ tu, "own incarnation grew without a suspicion">>,
        <<\A x \in suspNow : (x < m.own.lo /\ Cardinality(suspNow) = 1) =>
             \A i \in DOMAIN asMe : asMe[i].inc <= m.own.hi, "own incarnation grew on a stale suspicion">>,
        <<one /\ e.me = b.me /\ conn2 # "defunct" =>
             \A i \in DOMAIN asMe : asMe[i].inc >= w.lo, "suspicion not refuted by the datagrams that follow">>,
        <<reset /\ w.touch <= 1 =>
             \A i \in DOMAIN SentAs(e, e.me) : (e.me # b.me \/ c.op # "data") => SentAs(e, e.me)[i].inc = 0,
          "incarnation of a new identity does not start at 0">>,
        <<\A i \in DOMAIN ours : \A j \in DOMAIN ours[i].ups :
             LET u == ours[i].ups[j]
                 k == <<u[1], u[2]>>
             IN (k \in DOMAIN told /\ u[3] <= told[k]) \/ (u[3] = 0 /\ u[4] = Down),
          "told others about an incarnation nobody told us">>,
        (* dichotomy *)
        <<deaths = <<>> \/ rejoin \/ defunct \/ (b.conn = "defunct" /\ conn2 = "defunct"),
          "own death learned but neither Rejoin nor Defunct">>,
        <<deaths = <<>> \/ ~renews \/ rejoin, "renewable identity did not rejoin">>,
        <<deaths = <<>> \/ ~renews \/ e.me # b.me, "renewable identity kept after its death">>,
        <<c.op = "changeid" \/ e.me = b.me \/ (e.me[1] = b.me[1] /\ e.me[2] > b.me[2] /\ rejoin),
          "switched to an identity that does not win against the old one">>,
        <<deaths = <<>> \/ e.me # b.me \/ conn2 = "defunct", "carries on under a dead identity">>,
        <<~m.dead \/ e.me # b.me \/ ResetCall(e) \/ conn2 = "defunct", "active again under a dead identity">>,
        <<~(m.dead /\ e.me = b.me /\ ~ResetCall(e)) \/ \A i \in DOMAIN ours : ours[i].kind \notin LiveKinds,
          "takes part in the protocol under a dead identity">>,
        <<~(rejoin /\ e.me # b.me /\ b.conn # "defunct" /\ witness /\ Len(deaths) = 1
              /\ b.cfg.mps >= 1000 /\ m.ub < 25 /\ ~enc)
             \/ \E o \in goss : o.src # b.me /\ \E i \in DOMAIN o.ups : o.ups[i][1] = b.me[1] /\ o.ups[i][2] = b.me[2] /\ o.ups[i][4] = Down,
          "renewed without gossiping the old identity as Down">> >>)
  IN [b |-> BStep(b, e), own |-> own2, told |-> told,
      dead |-> conn2 = "defunct", ub |-> e.ub, bad |-> bad,
      n |-> [ev |-> m.n.ev + 1, susp |-> m.n.susp + B2N(suspNow # {}),
             bumps |-> m.n.bumps + B2N(own2.lo > m.own.lo),
             deaths |-> m.n.deaths + Len(deaths),
             rejoin |-> m.n.rejoin + B2N(rejoin),
             max |-> m.n.max + B2N(MaxInc \in suspNow),
             gossipdead |-> m.n.gossipdead + B2N(rejoin /\ b.conn # "defunct" /\ witness)]]
=============================================================================
