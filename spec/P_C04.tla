------------------------------- MODULE P_C04 -------------------------------
(***************************************************************************)
(* A single lost datagram.  After the cluster formed one datagram never    *)
(* arrives: nobody is declared Down or told so, and within (2n + 1) probe  *)
(* periods plus suspect_to_down_after everybody lists everybody as Alive   *)
(* again.                                                                  *)
(***************************************************************************)
EXTENDS Cluster

MInit(h) == [c |-> CInit(h), bad |-> "", formed |-> FALSE, drop |-> -1, was |-> 0,
             n |-> [runs |-> 0, ev |-> 0, calls |-> 0, lost |-> 0, suspected |-> 0, refuted |-> 0, nobody |-> 0,
                    ping |-> 0, ack |-> 0, announce |-> 0, feed |-> 0, gossip |-> 0,
                    late |-> 0, maxn |-> 0, maxpct |-> 0]]

Bound(h) == (2 * h.n + 1) * h.cfg.pp + h.cfg.s2d
AllAlive(c) == \A p \in Pairs(Node(c.h)) : ListsAlive(c, p[1], p[2])

MStep(m, e) ==
  LET c == CStep(m.c, e)
      h == c.h
      call == IsCall(e)
      formed == m.formed \/ e.op = "formed"
      drop == IF e.op = "drop" THEN e.t ELSE m.drop
      all0 == AllAlive(m.c)
      all == AllAlive(c)
      \* nothing changes between events
      over == drop >= 0 /\ e.t > drop + Bound(h)
      bad == FirstBad(<<
        <<Res(e) # "panic", "panic">>,
        <<e.op = "formed" => all, "the cluster did not form">>,
        <<~Noted(e, "down"), "MemberDown after a single loss">>,
        <<~Noted(e, "defunct") /\ ~Noted(e, "rejoin"), "a live member was told it is down after a single loss">>,
        <<call => \A k \in DOMAIN e.ch : e.ch[k][4] < Down, "a live member was declared Down or forgotten">>,
        <<over => all0, "not everybody is Alive again in time">>,
        <<e.op = "end" => all, "not everybody is Alive at the end">>,
        <<e.op = "end" => ExactActive(c, e, Node(h)), "iter_members is not the other members">> >>)
      z == m.n
      healed == formed /\ ~all0 /\ all
      sus == call /\ \E k \in DOMAIN e.ch : e.ch[k][4] = Suspect
  IN [c |-> c, bad |-> bad, formed |-> formed, drop |-> drop, was |-> 0,
      n |-> [z EXCEPT !.ev = @ + 1, !.runs = @ + B2N(e.op = "end"),
               !.calls = @ + (IF e.op = "end" THEN h.calls ELSE 0),
               !.lost = @ + B2N(e.op = "drop"), !.suspected = @ + B2N(sus), !.refuted = @ + B2N(healed),
               !.nobody = @ + B2N(e.op = "end" /\ z.suspected = 0),
               !.ping = @ + B2N(e.op = "drop" /\ e.kind = "ping"), !.ack = @ + B2N(e.op = "drop" /\ e.kind = "ack"),
               !.announce = @ + B2N(e.op = "drop" /\ e.kind = "announce"), !.feed = @ + B2N(e.op = "drop" /\ e.kind = "feed"),
               !.gossip = @ + B2N(e.op = "drop" /\ e.kind = "gossip"),
               !.late = @ + B2N(e.op = "end" /\ h.style = "late"),
               !.maxn = h.n,
               !.maxpct = IF healed /\ drop >= 0 THEN Max2(@, ((e.t - drop) * 100) \div Bound(h)) ELSE @]]
=============================================================================
