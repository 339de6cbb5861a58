------------------------------- MODULE P_C03 -------------------------------
(***************************************************************************)
(* Completeness.  Members crash or leave at any event of an otherwise      *)
(* fault-free run: every survivor that listed one as active notifies       *)
(* MemberDown for it within (2n + 1) probe periods plus                    *)
(* suspect_to_down_after, those a leaver told at once; nobody else is      *)
(* declared Down and a leaver answers no probe.                            *)
(***************************************************************************)
EXTENDS Cluster

MInit(h) == [c |-> CInit(h), bad |-> "", owe |-> {},
             n |-> [runs |-> 0, ev |-> 0, calls |-> 0, crashes |-> 0, leaves |-> 0, owed |-> 0, told |-> 0,
                    asked |-> 0, alone |-> 0, maxn |-> 0, maxpct |-> 0]]

Bound(h) == (2 * h.n + 1) * h.cfg.pp + h.cfg.s2d
Probes == {"ping", "pingreq", "indping"}
Answer(k) == k \in {"ack", "indack", "fwdack", "indping"}

(* owe: <<survivor, failed, generation, deadline, since>> *)
MStep(m, e) ==
  LET c0 == m.c
      c == CStep(c0, e)
      h == c.h
      call == IsCall(e)
      failed == e.op \in {"crash", "leaving"} /\ e.i \in c0.up
      new == IF failed
             THEN {<<j, e.i, c0.g[e.i], e.t + Bound(h), e.t>> :
                   j \in {j \in c.up : e.i \in DOMAIN c0.v[j] /\ c0.v[j][e.i][3] # Down}}
             ELSE {}
      left == call /\ e.op = "api" /\ e.kind = "leave"
      tellees == IF left THEN Rng(e.told) \cap c.up ELSE {}
      \* those told by the leaver itself: as long as the datagram takes
      sooner == {<<o[1], o[2], o[3], e.t + h.lat, o[5]>> : o \in {o \in m.owe : left /\ o[2] = e.i /\ o[1] \in tellees}}
      down == IF call THEN {x.a : x \in {x \in NotesOf(e) : x.k = "down"}} ELSE {}
      paid == {o \in m.owe : call /\ o[1] = e.i /\ <<o[2], o[3]>> \in down}
      owe == {o \in (m.owe \ paid) \cup new \cup sooner : o[1] \in c.up}
      late == {o \in owe : o[4] < e.t}
      live(a) == a \in c.up
      bad == FirstBad(<<
        <<Res(e) # "panic", "panic">>,
        <<late = {}, "MemberDown was not notified in time">>,
        <<\A d \in down : ~live(d[1]) \/ d[2] # c.g[d[1]], "MemberDown for a surviving member">>,
        <<call => \A k \in DOMAIN e.ch : e.ch[k][4] = Down => ~live(e.ch[k][1]), "a surviving member was declared Down">>,
        <<call /\ live(e.i) => ~Noted(e, "defunct") /\ ~Noted(e, "rejoin"), "a surviving member was told it is down">>,
        <<call /\ ~live(e.i) /\ ~left => \A k \in DOMAIN e.to : ~Answer(e.to[k][3]) /\ e.to[k][3] # "ping",
          "a member that left answers or probes">>,
        <<e.op = "end" => owe = {}, "the run ended before MemberDown was notified">> >>)
      z == m.n
      since == IF paid = {} THEN 0 ELSE LET o == CHOOSE o \in paid : TRUE IN ((e.t - o[5]) * 100) \div Bound(h)
  IN [c |-> c, bad |-> bad, owe |-> owe,
      n |-> [z EXCEPT !.ev = @ + 1, !.runs = @ + B2N(e.op = "end"),
               !.calls = @ + (IF e.op = "end" THEN h.calls ELSE 0),
               !.crashes = @ + B2N(failed /\ e.op = "crash"), !.leaves = @ + B2N(failed /\ e.op = "leaving"),
               !.owed = @ + Cardinality(new), !.told = @ + Cardinality(sooner),
               !.asked = @ + B2N(call /\ ~live(e.i) /\ ~left /\ e.kind \in Probes),
               !.alone = @ + B2N(call /\ Noted(e, "idle")),
               !.maxn = h.n, !.maxpct = Max2(@, since)]]
=============================================================================
