------------------------------- MODULE P_C09 -------------------------------
(* One record per address; identities only move forward; own address never *)
(* active; payloads of superseded or Down senders are discarded.           *)
EXTENDS Obs

MInit(h) == [b |-> BInit(h), told |-> {}, bad |-> "", ub |-> 0, cb |-> 0,
             n |-> [ev |-> 0, renames |-> 0, discarded |-> 0, ownaddr |-> 0]]

(* Follows the Rename notifications: gen in use per address *)
RECURSIVE Chain(_, _)
Chain(s, ns) ==
  IF ns = <<>> \/ s.bad # "" THEN s
  ELSE
  LET o == Head(ns)
      t == IF o.k # "rename" THEN s
           ELSE IF o.a[1] # o.b[1] THEN [s EXCEPT !.bad = "Rename across addresses"]
           ELSE IF o.b[2] <= o.a[2] THEN [s EXCEPT !.bad = "Rename to an identity that does not win the conflict"]
           ELSE IF Has(s.g, o.a[1]) /\ s.g[o.a[1]] # o.a[2]
                THEN [s EXCEPT !.bad = "Rename from an identity that was not in use"]
           ELSE [s EXCEPT !.g = Put(s.g, o.a[1], o.b[2])]
  IN Chain(t, Tail(ns))

MStep(m, e) ==
  IF Panicked(e) THEN m ELSE
  LET b == m.b
      c == e.c
      sq == IF HasF(e, "mem") THEN e.mem ELSE b.seq
      v == MemAfter(b, e)
      ups == IF c.op = "apply" THEN c.ups ELSE IF c.op = "data" /\ c.hdr THEN c.ups ELSE <<>>
      told == m.told \cup {ups[i][1] : i \in DOMAIN ups}
                     \cup (IF c.op = "data" /\ c.hdr THEN {c.src[1]} ELSE {})
      ch == Chain([g |-> [a \in DOMAIN b.mem |-> b.mem[a][1]], bad |-> ""], Notes(e))
      forget == c.op \in {"timer", "crafted"} /\ c.t = "rm"
      stale == DataAccepted(b, e) /\ ~SenderActive(b.mem, c.src)
      fromSelf == c.op = "data" /\ c.hdr /\ c.len <= b.cfg.mps /\ c.src[1] = b.me[1]
      selfdeath == stale /\ c.kind = "turnundead"
      same == v = b.mem
      bad == FirstBad(<<
        <<Cardinality(DOMAIN v) = Len(sq), "two records with the same address">>,
        <<~(Has(v, e.me[1]) /\ Active(v[e.me[1]])), "own address listed as an active member">>,
        <<DOMAIN v \subseteq told, "a record for an address nobody mentioned">>,
        <<ch.bad = "", ch.bad>>,
        <<\A a \in DOMAIN v :
             IF Has(b.mem, a) THEN v[a][1] >= b.mem[a][1] ELSE TRUE,
          "identity of a record moved backwards">>,
        <<\A a \in DOMAIN v : Has(ch.g, a) => v[a][1] = ch.g[a],
          "identity of a record replaced without Rename">>,
        <<\A a \in DOMAIN b.mem : Has(v, a) \/ forget, "a record vanished without its forget-timer">>,
        <<stale => same, "membership changed by the payload of an inactive sender">>,
        <<stale => e.rx = <<>>, "custom broadcast accepted from an inactive sender">>,
        <<stale /\ ~selfdeath => e.ub = m.ub /\ e.cb = m.cb, "backlog changed by the payload of an inactive sender">>,
        <<stale => \A o \in Rng(Sends(e)) : selfdeath \/ o.kind = "turnundead",
          "inactive sender answered as if its message counted">>,
        <<stale /\ ~selfdeath => Notes(e) = <<>>, "payload of an inactive sender notified something">>,
        <<fromSelf => same /\ e.out = <<>> /\ e.rx = <<>> /\ e.res # "Ok", "data from the own address was processed">> >>)
  IN [b |-> BStep(b, e), told |-> told, bad |-> bad, ub |-> e.ub, cb |-> e.cb,
      n |-> [ev |-> m.n.ev + 1,
             renames |-> m.n.renames + B2N(\E o \in Rng(Notes(e)) : o.k = "rename"),
             discarded |-> m.n.discarded + B2N(stale),
             ownaddr |-> m.n.ownaddr + B2N(Has(v, e.me[1]))]]
=============================================================================
