------------------------------- MODULE P_C11 -------------------------------
(* Suspicion timeouts, Down and forgetting                                 *)
EXTENDS Obs

(* tm: timers issued and their epoch, by number.                            *)
(* owe: identities declared Down by a timeout, not yet gossiped             *)
MInit(h) == [b |-> BInit(h), tm |-> <<>>, owe |-> {}, ub |-> 0, cb |-> 0, bad |-> "",
             n |-> [ev |-> 0, fired |-> 0, effective |-> 0, refuted |-> 0, staleep |-> 0, renamed |-> 0,
                    gone |-> 0, isdown |-> 0, forgot |-> 0, rmnoop |-> 0, newdown |-> 0]]

(* epochs of the timers issued by a call, in order *)
RECURSIVE Issue(_, _, _)
Issue(tm, out, ep) ==
  IF out = <<>> THEN tm
  ELSE LET o == Head(out)
       IN IF IsTimer(o) THEN Issue(Append(tm, [t |-> o.t, id |-> o.id, inc |-> o.inc, ep |-> ep]), Tail(out), ep)
          ELSE Issue(tm, Tail(out), IF BumpsEpoch(o) THEN ep + 1 ELSE ep)

MStep(m, e) ==
  IF Panicked(e) THEN m ELSE
  LET b == m.b
      c == e.c
      v0 == b.mem
      v == MemAfter(b, e)
      ep0 == b.ep + B2N(ResetCall(e))
      tm2 == Issue(m.tm, e.out, ep0)
      isS == c.op = "timer" /\ c.t = "s2d"
      isR == c.op \in {"timer", "crafted"} /\ c.t = "rm"
      t == m.tm[c.n]
      id == c.id
      known == Has(v0, id[1]) /\ v0[id[1]][1] = id[2]
      current == (b.ep - t.ep) % 256 = 0
      sameinc == known /\ v0[id[1]][2] = c.inc
      takes == isS /\ current /\ sameinc /\ Active(v0[id[1]])
      noop == e.out = <<>> /\ v = v0 /\ e.ub = m.ub /\ e.cb = m.cb /\ e.me = b.me /\ e.rx = <<>>
      timersOut == {o \in Rng(e.out) : IsTimer(o)}
      notes == Notes(e)
      tu == {o \in Rng(Sends(e)) : o.hdr /\ o.kind = "turnundead"}
      newDown == {a \in DOMAIN v : v[a][3] = Down /\ ~(Has(v0, a) /\ v0[a][1] = v[a][1] /\ v0[a][3] = Down)}
      exactRm == isR /\ known /\ v0[id[1]][3] = Down
      firstPiggy == SelectSeq(e.out, LAMBDA o : IsSend(o) /\ o.hdr /\ UpdatesIn(o.kind))
      owe == IF takes THEN m.owe \cup {id} ELSE m.owe
      big == b.cfg.mps >= 1000 /\ m.ub < 25
      bad == FirstBad(<<
        <<isS /\ takes => e.res = "Ok" \/ EncodeFailed(e), "suspicion timeout failed">>,
        <<takes => Has(v, id[1]) /\ v[id[1]] = <<id[2], c.inc, Down>>, "unrefuted suspicion did not turn the member Down">>,
        <<takes => Del(v, id[1]) = Del(v0, id[1]), "suspicion timeout changed another member">>,
        <<takes => \E i \in DOMAIN notes : notes[i].k = "down" /\ notes[i].a = id, "timeout took effect without MemberDown">>,
        <<takes => \E o \in timersOut : o.t = "rm" /\ o.id = id /\ o.after = b.cfg.rmd, "timeout took effect without scheduling the forgetting">>,
        <<takes => IF b.cfg.nd /\ ~EncodeFailed(e) THEN Cardinality({i \in DOMAIN e.out : IsSend(e.out[i]) /\ e.out[i].hdr /\ e.out[i].kind = "turnundead" /\ e.out[i].to = id}) = 1
                                   /\ Len(Sends(e)) = 1
                   ELSE Sends(e) = <<>>, "TurnUndead to the declared member iff notify_down_members">>,
        <<takes => e.ub > 0, "Down update not queued for gossip">>,
        <<isS /\ ~takes => noop /\ e.res = "Ok", "cancelled or stale suspicion timeout had an effect">>,
        <<isR => e.out = <<>> /\ e.res = "Ok" /\ e.ub = m.ub /\ e.cb = m.cb, "forget-timer had side effects">>,
        <<isR => v = (IF exactRm THEN Del(v0, id[1]) ELSE v0), "forget-timer must remove exactly the Down identity it names">>,
        <<isR \/ DOMAIN v0 \subseteq DOMAIN v, "a record was forgotten without its forget-timer">>,
        <<\A a \in DOMAIN v0 : (v0[a][3] = Down /\ Has(v, a) /\ v[a][1] = v0[a][1]) => v[a][3] = Down, "a Down identity became active again">>,
        <<\A a \in newDown : \E o \in timersOut : o.t = "rm" /\ o.id = <<a, v[a][1]>> /\ o.after = b.cfg.rmd,
          "transition to Down without a forget-timer">>,
        <<\A o \in timersOut : o.t = "rm" => Has(v, o.id[1]) /\ (v[o.id[1]][1] > o.id[2] \/ (v[o.id[1]][1] = o.id[2] /\ v[o.id[1]][3] = Down)),
          "forget-timer for an identity that is not Down">>,
        <<\A o \in timersOut : o.t = "s2d" /\ Has(v, o.id[1]) /\ v[o.id[1]][1] = o.id[2] /\ v[o.id[1]][2] = o.inc => v[o.id[1]][3] # Alive,
          "timeout raised for a member that is not under suspicion">>,
        <<~big \/ firstPiggy = <<>> \/ isS \/
             \A x \in m.owe : \E i \in DOMAIN firstPiggy[1].ups :
                firstPiggy[1].ups[i][1] = x[1] /\ (firstPiggy[1].ups[i][2] > x[2] \/ (firstPiggy[1].ups[i][2] = x[2] /\ firstPiggy[1].ups[i][4] = Down)),
          "Down declared by a timeout is not gossiped">> >>)
      z == m.n
  IN [b |-> BStep(b, e), tm |-> tm2,
      owe |-> IF firstPiggy # <<>> /\ ~isS THEN {} ELSE IF e.c.op = "timer" /\ isR /\ exactRm THEN {x \in m.owe : x[1] # id[1]} ELSE owe,
      ub |-> e.ub, cb |-> e.cb, bad |-> bad,
      n |-> [ev |-> z.ev + 1, fired |-> z.fired + B2N(isS), effective |-> z.effective + B2N(takes),
             refuted |-> z.refuted + B2N(isS /\ current /\ known /\ ~sameinc),
             staleep |-> z.staleep + B2N(isS /\ ~current),
             renamed |-> z.renamed + B2N(isS /\ current /\ ~known /\ Has(v0, id[1])),
             gone |-> z.gone + B2N(isS /\ current /\ ~Has(v0, id[1])),
             isdown |-> z.isdown + B2N(isS /\ current /\ sameinc /\ ~takes),
             forgot |-> z.forgot + B2N(exactRm), rmnoop |-> z.rmnoop + B2N(isR /\ ~exactRm),
             newdown |-> z.newdown + Cardinality(newDown)]]
=============================================================================
