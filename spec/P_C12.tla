------------------------------- MODULE P_C12 -------------------------------
(***************************************************************************)
(* Probe rounds and the four-hop indirect probe.  Histories deliver every  *)
(* timer once, in deadline order.                                          *)
(***************************************************************************)
EXTENDS Obs

NoRound == [on |-> FALSE, id |-> <<>>, inc |-> 0, pn |-> -1, asked |-> {}, ev |-> FALSE, ind |-> FALSE]

MInit(h) == [b |-> BInit(h), tm |-> <<>>, rd |-> NoRound, lost |-> FALSE, bad |-> "",
             n |-> [ev |-> 0, rounds |-> 0, direct |-> 0, indirect |-> 0, failed |-> 0, failedgone |-> 0,
                    failedhigher |-> 0, incomplete |-> 0, aborted |-> 0, pingreqs |-> 0, wrongack |-> 0,
                    wrongfwd |-> 0, lateack |-> 0, relays |-> 0, rejected |-> 0, answered |-> 0]]

RECURSIVE Epochs(_, _, _)
Epochs(tm, out, ep) ==
  IF out = <<>> THEN tm
  ELSE LET o == Head(out)
       IN IF IsTimer(o) THEN Epochs(Append(tm, ep), Tail(out), ep)
          ELSE Epochs(tm, Tail(out), IF BumpsEpoch(o) THEN ep + 1 ELSE ep)

OfKind(e, k) == SelectSeq(e.out, LAMBDA o : IsSend(o) /\ o.hdr /\ o.kind = k)
Relays == {"ack", "indping", "indack", "fwdack"}
AnswerTo(k) == CASE k = "ping" -> "ack" [] k = "pingreq" -> "indping" [] k = "indping" -> "indack"
                 [] k = "indack" -> "fwdack" [] OTHER -> "none"

MStep(m, e) ==
  IF Panicked(e) \/ m.lost THEN m ELSE
  LET b == m.b
      c == e.c
      rd == m.rd
      v0 == b.mem
      v == MemAfter(b, e)
      bumped == NumBumps(e.out) > 0 \/ ResetCall(e)
      conn2 == ConnAfter(BConn0(b, e), e.out)
      current == c.op = "timer" /\ (b.ep - m.tm[c.n]) = 0
      isP == current /\ c.t = "probe" /\ b.conn = "active"
      isI == current /\ c.t = "ind" /\ b.conn = "active"
      acc == DataAccepted(b, e) /\ SenderActive(b.mem, c.src)
      (* evidence gathered by this event *)
      dEv == acc /\ ~bumped /\ rd.on /\ c.kind = "ack" /\ c.src = rd.id /\ c.pn = rd.pn
      iEv == acc /\ ~bumped /\ rd.on /\ c.kind = "fwdack" /\ c.src \in rd.asked /\ c.pn = rd.pn /\ c.tgt # e.me
      pings == OfKind(e, "ping")
      reqs == OfKind(e, "pingreq")
      s2d == SelectSeq(e.out, LAMBDA o : IsTimer(o) /\ o.t = "s2d")
      a == IF rd.on THEN rd.id[1] ELSE 0
      known == rd.on /\ Has(v0, a)
      same == known /\ v0[a][1] = rd.id[2]
      suspectable == same /\ Active(v0[a]) /\ v0[a][2] <= rd.inc
      older == known /\ v0[a][1] < rd.id[2]
      failing == isP /\ rd.on /\ rd.ind /\ ~rd.ev
      succeeding == isP /\ rd.on /\ rd.ev
      active0 == ActiveIds(v0)
      asked == {reqs[i].to : i \in DOMAIN reqs}
      (* what has to be answered *)
      req == acc /\ c.kind \in {"ping", "pingreq", "indping", "indack"}
      selfTgt == acc /\ c.kind \in {"pingreq", "indping", "indack", "fwdack"} /\ c.tgt = e.me
      ans == IF req THEN AnswerTo(c.kind) ELSE "none"
      answers == SelectSeq(e.out, LAMBDA o : IsSend(o) /\ o.hdr /\ o.kind \in Relays)
      dest == IF req THEN (IF c.kind \in {"ping", "indping"} THEN c.src ELSE c.tgt) ELSE <<>>
      third == IF req THEN (CASE c.kind = "ping" -> <<>>
                              [] c.kind = "pingreq" -> c.src
                              [] c.kind = "indping" -> c.tgt
                              [] OTHER -> c.src) ELSE <<>>
      enc == EncodeFailed(e)
      bad == FirstBad(<<
        <<succeeding => s2d = <<>> /\ v = v0, "suspicion raised although the probe succeeded">>,
        <<failing /\ suspectable => Has(v, a) /\ v[a] = <<rd.id[2], rd.inc, Suspect>>,
          "failed probe round did not turn the member Suspect">>,
        <<failing /\ suspectable => Len(s2d) = 1 /\ s2d[1].id = rd.id /\ s2d[1].inc = rd.inc
              /\ s2d[1].after = b.cfg.s2d,
          "failed probe round did not schedule exactly one suspicion timeout">>,
        <<failing /\ suspectable => Del(v, a) = Del(v0, a), "failed probe round changed another member">>,
        <<failing /\ ~suspectable /\ ~older => v = v0 /\ Len(s2d) <= 1 /\ \A i \in DOMAIN s2d : s2d[i].id = rd.id,
          "failed probe round changed a member that is not suspectable">>,
        <<isP /\ ~rd.on => s2d = <<>> /\ v = v0, "suspicion without a probe round">>,
        <<isP \/ s2d = <<>>, "suspicion timeout scheduled outside the end of a probe round">>,
        <<isP \/ pings = <<>>, "ping sent outside a probe round">>,
        <<isP => Len(pings) <= 1, "several pings in one round">>,
        <<isP /\ pings # <<>> => pings[1].to \in ActiveIds(v), "pinged a member that is not active">>,
        <<isP /\ pings # <<>> /\ rd.pn # -1 => pings[1].pn # rd.pn, "probe number reused by the next round">>,
        (* indirect probing *)
        <<reqs = <<>> \/ (isI /\ rd.on /\ c.id = rd.id), "indirect probe requested outside its stage">>,
        <<reqs = <<>> \/ ~rd.ev, "indirect probe requested although an Ack arrived">>,
        <<reqs = <<>> \/ rd.id \in active0, "indirect probe requested for a member that is not active">>,
        <<Len(reqs) <= b.cfg.fan /\ Cardinality(asked) = Len(reqs), "too many or repeated indirect probe requests">>,
        <<reqs = <<>> \/ (asked \subseteq active0 /\ rd.id \notin asked), "indirect probe requested from the target or an inactive member">>,
        <<\A i \in DOMAIN reqs : reqs[i].tgt = rd.id /\ reqs[i].pn = rd.pn, "indirect probe request names another target or number">>,
        (* answers *)
        <<ans = "none" => answers = <<>>, "answer to a request nobody made">>,
        <<req /\ selfTgt /\ conn2 = "active" => answers = <<>> /\ (e.res = "IndirectForOurselves" \/ enc),
          "indirect request about ourselves not rejected">>,
        <<acc /\ c.kind = "fwdack" /\ selfTgt /\ conn2 = "active" => e.res = "IndirectForOurselves" \/ enc,
          "forwarded ack about ourselves not rejected">>,
        <<req /\ ~selfTgt /\ conn2 = "active" /\ ~enc =>
            Len(answers) = 1 /\ answers[1].kind = ans /\ answers[1].to = dest /\ answers[1].pn = c.pn
            /\ answers[1].tgt = third,
          "request not answered or relayed as it should">>,
        <<req /\ conn2 = "defunct" => answers = <<>>, "defunct instance answered">> >>)
      rd1 == IF pings # <<>> /\ isP /\ ~bumped
             THEN [on |-> TRUE, id |-> pings[1].to, inc |-> IF Has(v, pings[1].to[1]) THEN v[pings[1].to[1]][2] ELSE 0,
                   pn |-> pings[1].pn, asked |-> {}, ev |-> FALSE, ind |-> FALSE]
             ELSE [rd EXCEPT !.ev = @ \/ dEv \/ iEv,
                             !.asked = IF iEv THEN @ \ {c.src} ELSE @ \cup asked,
                             !.ind = @ \/ isI]
      rd2 == IF bumped THEN [NoRound EXCEPT !.pn = rd1.pn] ELSE rd1
      z == m.n
  IN [b |-> BStep(b, e), tm |-> Epochs(m.tm, e.out, b.ep + B2N(ResetCall(e))), rd |-> rd2, bad |-> bad,
      \* whom is being probed, or was asked to help, cannot be observed
      lost |-> (enc /\ (isP \/ isI)) \/ (isP /\ e.res = "IncompleteProbeCycle" /\ pings = <<>>),
      n |-> [ev |-> z.ev + 1,
             rounds |-> z.rounds + Len(pings),
             direct |-> z.direct + B2N(dEv), indirect |-> z.indirect + B2N(iEv),
             failed |-> z.failed + B2N(failing /\ suspectable),
             failedgone |-> z.failedgone + B2N(failing /\ ~(same /\ Active(v0[a]))),
             failedhigher |-> z.failedhigher + B2N(failing /\ same /\ Active(v0[a]) /\ v0[a][2] > rd.inc),
             incomplete |-> z.incomplete + B2N(isP /\ rd.on /\ ~rd.ind),
             aborted |-> z.aborted + B2N(bumped /\ rd.on),
             pingreqs |-> z.pingreqs + Len(reqs),
             wrongack |-> z.wrongack + B2N(acc /\ c.kind = "ack" /\ ~dEv),
             wrongfwd |-> z.wrongfwd + B2N(acc /\ c.kind = "fwdack" /\ ~iEv),
             lateack |-> z.lateack + B2N(dEv /\ rd.ind),
             relays |-> z.relays + B2N(req /\ c.kind # "ping" /\ answers # <<>>),
             rejected |-> z.rejected + B2N(selfTgt),
             answered |-> z.answered + B2N(req /\ c.kind = "ping" /\ answers # <<>>)]]
=============================================================================
