------------------------------- MODULE P_C05 -------------------------------
(***************************************************************************)
(* Auto-rejoin.  A two-sided partition long enough for mutual Down heals   *)
(* (or one live member is declared Down falsely): within a number of       *)
(* announce-to-down periods linear in the cluster size everybody lists     *)
(* everybody under its current identity as active, and so they do at the   *)
(* end.  Whoever is told that it is down rejoins at once with an identity  *)
(* that wins against the previous one and becomes active again; nobody     *)
(* ever turns Defunct.                                                     *)
(***************************************************************************)
EXTENDS Cluster

MInit(h) == [c |-> CInit(h), bad |-> "", heal |-> -1, wait |-> {},
             side |-> <<>>, cut |-> FALSE, done |-> -1,
             n |-> [runs |-> 0, ev |-> 0, calls |-> 0, splits |-> 0, falses |-> 0, mutual |-> 0, told |-> 0, stale |-> 0,
                    rejoins |-> 0, many |-> 0, within |-> 0, maxn |-> 0, maxpct |-> 0, maxpads |-> 0]]

Pad(h) == h.cfg.pad[1]
(* the time both sides need to notice, and as many periods as it may take *)
Bound(h) == (3 * h.n + 12) * Pad(h) + (2 * h.n + 2) * h.cfg.pp + h.cfg.s2d
All(c) == Missing(c, Node(c.h)) = {}

(* Every pair across the split considers each other Down *)
Cross(s) == {p \in (DOMAIN s) \X (DOMAIN s) : s[p[1]] # s[p[2]]}
Thinks(c, i, j) == j \in DOMAIN c.v[i] /\ c.v[i][j][3] = Down

MStep(m, e) ==
  LET c == CStep(m.c, e)
      h == c.h
      call == IsCall(e)
      begin == e.op \in {"heal", "false"}
      heal == IF begin THEN e.t ELSE IF e.op = "split" THEN -1 ELSE m.heal
      rej == call /\ Noted(e, "rejoin")
      act == call /\ Noted(e, "active")
      told == call /\ e.op = "data" /\ e.kind = "turnundead" /\ m.heal >= 0
      \* the order of the notifications of a call: Active after the last Rejoin
      rs == IF call THEN {k \in DOMAIN e.notes : e.notes[k].k = "rejoin"} ELSE {}
      as == IF call THEN {k \in DOMAIN e.notes : e.notes[k].k = "active"} ELSE {}
      wait == IF ~call THEN m.wait
              ELSE IF rej THEN (IF \E a \in as : \A r \in rs : a > r THEN m.wait \ {e.i} ELSE m.wait \cup {e.i})
              ELSE IF act THEN m.wait \ {e.i} ELSE m.wait
      all0 == All(m.c)
      all == All(c)
      over == m.heal >= 0 /\ e.t > m.heal + Bound(h)
      sides == IF e.op = "split" THEN [i \in Node(h) |-> e.side[i + 1]] ELSE m.side
      bad == FirstBad(<<
        <<Res(e) # "panic", "panic">>,
        <<~Noted(e, "defunct"), "a member with a renewable identity became Defunct">>,
        <<\A x \in NotesOf(e) : x.k = "rejoin" => x.a[1] = e.i /\ x.a[2] > e.was[2],
          "Rejoin with an identity that does not win against the previous one">>,
        <<call /\ e.me # e.was => rej, "identity replaced without Rejoin">>,
        <<told => rej, "told to be down without rejoining">>,
        <<e.op = "formed" => all, "the cluster did not form">>,
        <<over => all0, "not everybody lists everybody in time">>,
        <<e.op = "end" => all, "not everybody lists everybody at the end">>,
        <<e.op = "end" => wait = {}, "no Active after Rejoin">>,
        <<e.op = "end" => ExactActive(c, e, Node(h)), "iter_members is not the other members">> >>)
      z == m.n
      cross == m.side # <<>> /\ e.op = "heal"
      done == IF e.op = "end" THEN m.done ELSE IF ~all THEN -1 ELSE IF ~all0 THEN e.t ELSE m.done
      pads == IF done >= 0 /\ heal >= 0 THEN (done - heal + Pad(h) - 1) \div Pad(h) ELSE 0
  IN [c |-> c, bad |-> bad, heal |-> heal, wait |-> wait, side |-> sides, cut |-> FALSE, done |-> done,
      n |-> [z EXCEPT !.ev = @ + 1, !.runs = @ + B2N(e.op = "end"),
               !.calls = @ + (IF e.op = "end" THEN h.calls ELSE 0),
               !.splits = @ + B2N(e.op = "heal"), !.falses = @ + B2N(e.op = "false"),
               !.mutual = @ + B2N(cross /\ \A p \in Cross(m.side) : Thinks(c, p[1], p[2])),
               !.told = @ + B2N(told),
               !.stale = @ + B2N(call /\ e.kind = "turnundead-old"),
               !.rejoins = @ + B2N(rej),
               !.many = @ + B2N(e.op = "end" /\ z.rejoins >= h.n),
               !.within = @ + B2N(e.op = "end" /\ pads <= 2),
               !.maxn = h.n,
               !.maxpads = IF e.op = "end" THEN Max2(@, pads) ELSE @,
               !.maxpct = IF e.op = "end" /\ done >= heal
                          THEN Max2(@, ((done - heal) * 100) \div Bound(h)) ELSE @]]
=============================================================================
