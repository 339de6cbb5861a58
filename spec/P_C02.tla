------------------------------- MODULE P_C02 -------------------------------
(***************************************************************************)
(* Fault-free clusters.  No instance ever records a live member as Suspect *)
(* or Down, loses one, or returns an error; with packets that hold the     *)
(* whole cluster everybody comes to list everybody.                        *)
(*                                                                         *)
(* Discovery.  A member that joins when everybody else has met learns all  *)
(* of them from the Feed and probes each of them, its n - 1 active ones,   *)
(* within 2(n-1) - 1 rounds (C14), one probe period apart: everybody has   *)
(* heard from it by then.  When several join at once, those the feeds left *)
(* out depend on piggybacked updates.                                      *)
(***************************************************************************)
EXTENDS Cluster

MInit(h) == [c |-> CInit(h), bad |-> "", due |-> 0, join |-> 0, full |-> -1,
             n |-> [runs |-> 0, ev |-> 0, calls |-> 0, joins |-> 0, spaced |-> 0, concurrent |-> 0, small |-> 0,
                    late |-> 0, maxn |-> 0, maxpct |-> 0]]

Spaced(h) == h.style = "spaced"
(* Whether the feeds and the dissemination settings can reach everybody *)
Owed(h) == h.fits
Bound(h) == (IF Spaced(h) THEN 2 * h.n + 3 ELSE 6 * h.n + 12) * h.cfg.pp + 2 * h.lat
(* Few transmissions and nothing that looks for peers *)
Starved(h) == ~Spaced(h) /\ h.cfg.mtx <= 6 /\ h.cfg.pa = <<>>

MStep(m, e) ==
  LET c == CStep(m.c, e)
      h == c.h
      ch == IF IsCall(e) THEN Rng(e.ch) ELSE {}
      due == IF e.op = "join" THEN e.t + Bound(h) ELSE m.due
      complete == Missing(c, c.in) = {}
      miss == Missing(c, c.in)
      \* nothing changes between events: the last state before the deadline counts
      over == e.t > m.due /\ m.due > 0 /\ m.c.t <= m.due
      miss0 == Missing(m.c, m.c.in)
      incomplete == Owed(h) /\ (IF e.op = "end" THEN miss # {} ELSE over /\ miss0 # {})
      M == IF e.op = "end" THEN miss ELSE miss0
      mutual == \A p \in M : <<p[2], p[1]>> \in M
      bad == FirstBad(<<
        <<Res(e) # "panic", "panic in a fault-free run">>,
        <<Res(e) = "Ok", "a call returned an error in a fault-free run">>,
        <<\A r \in ch : r[4] = Alive, "a live member was recorded as Suspect or Down, or was removed">>,
        <<\A r \in ch : r[1] \in c.in /\ r[2] = 0, "a record of nobody in the cluster">>,
        <<~Noted(e, "down"), "MemberDown in a fault-free run">>,
        <<~Noted(e, "idle"), "Idle in a fault-free run">>,
        <<~Noted(e, "defunct") /\ ~Noted(e, "rejoin"), "told to be down in a fault-free run">>,
        <<~Noted(e, "rename"), "Rename in a fault-free run">>,
        <<incomplete => Starved(h) /\ mutual, "a member was not discovered in time">>,
        <<~incomplete, "concurrent-joins-few-transmissions: members that joined at the same time never met">>,
        <<e.op = "end" /\ Owed(h) => ExactActive(c, e, c.in), "iter_members is not the other live members">> >>)
      first == complete /\ e.op # "end" /\ c.in = Node(h) /\ m.full < 0
      z == m.n
  IN [c |-> c, bad |-> bad, due |-> due,
      join |-> IF e.op = "join" THEN e.t ELSE m.join,
      full |-> IF first THEN e.t ELSE IF e.op = "join" THEN -1 ELSE m.full,
      n |-> [z EXCEPT !.ev = @ + 1,
               !.joins = @ + B2N(e.op = "join"),
               !.runs = @ + B2N(e.op = "end"),
               !.calls = @ + (IF e.op = "end" THEN h.calls ELSE 0),
               !.spaced = @ + B2N(e.op = "end" /\ Spaced(h) /\ h.fits),
               !.concurrent = @ + B2N(e.op = "end" /\ ~Spaced(h) /\ h.fits),
               !.small = @ + B2N(e.op = "end" /\ ~h.fits),
               !.late = @ + B2N(first /\ e.t > m.join + h.cfg.pp),
               !.maxn = h.n,
               !.maxpct = IF first /\ h.fits THEN Max2(@, ((e.t - m.join) * 100) \div Bound(h)) ELSE @]]
=============================================================================
