------------------------------- MODULE P_C01 -------------------------------
(* Membership knowledge is a join-semilattice: forward-only records, the   *)
(* same view for every order and multiplicity of delivery, idempotent      *)
(* re-application, agreement after a state exchange.                       *)
EXTENDS Obs

MInit(h) == [b |-> BInit(h), bad |-> "",
             n |-> [ev |-> 0, changed |-> 0, seqs |-> 0, perms |-> 0, reapplied |-> 0, exchanged |-> 0, merged |-> 0,
                    conflicts |-> 0, forgotten |-> 0, exact |-> 0]]

Recs(us, a) == {<<us[i][2], us[i][3], us[i][4]>> : i \in {k \in DOMAIN us : us[k][1] = a}}
(* The view a set of updates stands for: at every address some record that
   none of the others beats - defined without any order of delivery.       *)
Best(C) == {r \in C : \A s \in C : ~Beats(s, r)}
Stands(v, us) ==
  /\ DOMAIN v = {us[i][1] : i \in DOMAIN us}
  /\ \A a \in DOMAIN v : \E r \in Best(Recs(us, a)) : SameRec(r, v[a])

Forward(v0, v, a) == Has(v, a) /\ (v[a] = v0[a] \/ Beats(v[a], v0[a]) \/ SameRec(v[a], v0[a]))

RECURSIVE Fold(_, _, _)
Fold(v, us, me) == IF us = <<>> THEN v
                   ELSE IF Mine(me, Head(us)) THEN Fold(v, Tail(us), me)
                   ELSE Fold(Absorb(v, AsSeenBy(me, Head(us))), Tail(us), me)
Without(v, A) == [x \in (DOMAIN v) \ A |-> v[x]]

(* One call of a recorded history *)
StepBad(b, e) ==
  LET c == e.c
      v0 == b.mem
      v == MemAfter(b, e)
      mine == {b.me[1], e.me[1]}
      forget == c.op = "timer" /\ c.t = "rm"
      gone == (DOMAIN v0) \ DOMAIN v
      acc == DataAccepted(b, e)
      heard == IF acc THEN HeardFrom(v0, c.src, c.inc) ELSE v0
      us == AppliedUpdates(b, e)
      exact == (c.op = "apply" \/ acc)
      touched == {a \in DOMAIN v : ~Has(v0, a) \/ ~SameRec(v[a], v0[a])}
      quiet == c.op \in {"gossip", "broadcast", "announce", "addb", "setcfg", "leave", "reuse", "changeid"}
      known(u) == u[1] \in mine \/ (Has(v, u[1]) /\ ~Beats(<<u[2], u[3], u[4]>>, v[u[1]]))
  IN FirstBad(<<
       <<\A a \in (DOMAIN v0) \ (mine \cup gone) : Forward(v0, v, a), "a record moved backwards in the precedence order">>,
       <<gone = {} \/ (forget /\ gone = {c.id[1]} /\ v0[c.id[1]][3] = Down /\ v0[c.id[1]][1] = c.id[2]),
         "a record vanished although it was not a forgotten Down member">>,
       <<exact => SameView(Without(v, mine), Without(Fold(heard, us, b.me), mine)),
         "the view is not the join of what was known and what was received">>,
       <<exact => \A i \in DOMAIN us : known(us[i]), "an update that should have been absorbed is not reflected">>,
       <<quiet => \A a \in touched : a \in mine, "a call that delivers nothing changed a record">>,
       <<c.op = "data" /\ ~acc => v = v0, "a datagram that was not accepted changed a record">> >>)

SeqBad(e) ==
  LET n == Len(e.ups)
      V(k) == View(e.mems[k])
      bad(k) == FirstBad(<<
        <<Stands(V(k), SubSeq(e.ups, 1, k)), "the view is not the best of the updates delivered">>,
        <<k > 1 => \A a \in DOMAIN V(k - 1) : Forward(V(k - 1), V(k), a), "a record moved backwards in the precedence order">> >>)
      s == SelectSeq([k \in 1..n |-> bad(k)], LAMBDA x : x # "")
  IN IF Len(e.mems) # n THEN "incomplete" ELSE IF s = <<>> THEN "" ELSE s[1]

Neutral == <<99, 0, 0, Alive>>
PermBad(h, e) ==
  LET all == e.pre \o e.set \o <<Neutral>>
      us == [i \in DOMAIN all |-> AsSeenBy(h.me, all[i])]
      v == View(e.mem)
  IN FirstBad(<<
       <<Stands(v, us), "the view depends on the order or multiplicity of delivery">>,
       <<Cardinality(DOMAIN v) = Len(e.mem), "two records for one address">>,
       <<e.num = NumActive(v), "num_members differs from the active records">> >>)

HasMe(s) == \E i \in DOMAIN s.mem : s.mem[i][1] = s.me[1] /\ s.mem[i][2] = s.me[2]

ReapplyBad(e) ==
  IF HasMe(e.before) \/ e.res = "Encode" THEN ""
  ELSE FirstBad(<<
    <<e.before.mem = e.after.mem \/ View(e.before.mem) = View(e.after.mem), "re-applying the own full state changed the view">>,
    <<e.before.num = e.after.num /\ e.before.me = e.after.me /\ e.before.ub = e.after.ub, "re-applying the own full state changed something">>,
    <<e.notes = 0, "re-applying the own full state notified something">> >>)

ExchangeBad(e) ==
  LET a0 == View(e.a0.mem)
      b0 == View(e.b0.mem)
      a1 == View(e.a1.mem)
      b1 == View(e.b1.mem)
      mine == {e.a0.me[1], e.b0.me[1], e.a1.me[1], e.b1.me[1]}
      W(v) == Without(v, mine)
      J == [a \in ((DOMAIN a0) \cup (DOMAIN b0)) \ mine |->
              IF ~Has(a0, a) THEN b0[a] ELSE IF ~Has(b0, a) THEN a0[a] ELSE Join(a0[a], b0[a])]
  IN FirstBad(<<
    <<SameView(W(a1), W(b1)), "two instances disagree on a third party after exchanging their full states">>,
    <<SameView(W(a1), J), "state exchange did not produce the join of both views">> >>)

MStep(m, e) ==
  IF "x" \notin DOMAIN e THEN
    IF Panicked(e) THEN m
    ELSE LET b == m.b
             v == MemAfter(b, e)
             z == m.n
         IN [m EXCEPT !.b = BStep(b, e), !.bad = StepBad(b, e),
               !.n = [z EXCEPT !.ev = @ + 1, !.changed = @ + B2N(v # b.mem),
                               !.conflicts = @ + B2N(\E a \in DOMAIN v : Has(b.mem, a) /\ v[a][1] # b.mem[a][1]),
                               !.forgotten = @ + Cardinality((DOMAIN b.mem) \ DOMAIN v),
                               !.exact = @ + B2N(e.c.op = "apply" \/ DataAccepted(b, e))]]
  ELSE IF Panicked(e) THEN m
  ELSE LET z == m.n IN
    CASE e.x = "seq" -> [m EXCEPT !.bad = SeqBad(e), !.n = [z EXCEPT !.ev = @ + 1, !.seqs = @ + 1]]
      [] e.x = "perm" -> [m EXCEPT !.bad = PermBad([me |-> m.b.me], e), !.n = [z EXCEPT !.ev = @ + 1, !.perms = @ + 1]]
      [] e.x = "reapply" -> [m EXCEPT !.bad = ReapplyBad(e), !.n = [z EXCEPT !.ev = @ + 1, !.reapplied = @ + B2N(Len(e.before.mem) > 0)]]
      [] OTHER -> [m EXCEPT !.bad = ExchangeBad(e),
                     !.n = [z EXCEPT !.ev = @ + 1, !.exchanged = @ + 1, !.merged = @ + B2N(e.a0.mem # e.a1.mem /\ e.b0.mem # e.b1.mem)]]
=============================================================================
