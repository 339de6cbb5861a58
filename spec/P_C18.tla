------------------------------- MODULE P_C18 -------------------------------
(***************************************************************************)
(* Reply cascades.  One datagram is handed to one of a few instances and   *)
(* everything they send each other is delivered, no timer firing, until    *)
(* nothing is left.  An event is one delivery; the last one tells whether  *)
(* the network drained.                                                    *)
(*                                                                         *)
(* A delivery is allowed one direct answer (or, for an indirect probe, one *)
(* relay), one round of gossip per accusation it carries against the       *)
(* receiver and one more (its new identity).                               *)
(***************************************************************************)
EXTENDS Obs

MInit(h) == [h |-> h, bad |-> "", sends |-> 0,
             n |-> [ev |-> 0, deliveries |-> 0, cascades |-> 0, undeads |-> 0, rejoins |-> 0, mutual |-> 0,
                    gossips |-> 0, maxsends |-> 0, maxtotal |-> 0, maxleft |-> 0]]

Allowed(h, e) == h.fan * (e.about + 2) + 2

Undead(e) == e.kind = "turnundead"
Answers(e, k) == \E i \in DOMAIN e.out : e.out[i][2] = k /\ e.out[i][1][1] = e.src[1]

MStep(m, e) ==
  LET z == m.n IN
  IF e.kind = "end"
  THEN [m EXCEPT
    !.bad = FirstBad(<<
      <<~e.dead, "an instance panicked during the exchange">>,
      <<e.drained, "the exchange set off by one datagram did not end">>,
      \* (the longest ever seen has 16 deliveries)
      <<e.total <= 100 * m.h.k,
        "the exchange set off by one datagram is out of proportion">> >>),
    !.n = [z EXCEPT !.cascades = B2N(e.total > 2), !.maxtotal = e.total]]
  ELSE
  LET ns == Len(e.out)
      bad == FirstBad(<<
        <<e.res # "panic", "a delivery panicked">>,
        <<ns <= Allowed(m.h, e), "one delivered datagram caused too many new ones">> >>)
  IN [m EXCEPT
    !.bad = bad,
    !.n = [z EXCEPT !.ev = @ + 1, !.deliveries = @ + 1, !.undeads = @ + B2N(Undead(e)),
             !.rejoins = @ + B2N(e.me # e.to /\ e.me[1] = e.to[1] /\ e.res = "Ok"),
             !.mutual = @ + B2N(Undead(e) /\ Answers(e, "turnundead")),
             !.gossips = @ + B2N(ns > 1),
             !.maxsends = Max2(@, ns), !.maxleft = Max2(@, e.left)]]
=============================================================================
