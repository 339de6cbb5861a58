------------------------------ MODULE Cascade ------------------------------
(***************************************************************************)
(* C18 on the specification: two instances in every state of mutual        *)
(* knowledge, any one datagram, everything delivered in every order while  *)
(* timers are held.  The exchange always ends (nothing is sent forever:    *)
(* total is bounded) and every delivery causes a bounded number of sends.  *)
(***************************************************************************)
EXTENDS Net
CONSTANTS FULL
VARIABLES inst, net, total, most

N == 2
Cfg(nd, mtx) == [pp |-> 1000, rtt |-> 300, fan |-> 1, mtx |-> mtx, s2d |-> 3000, rmd |-> 10000, mps |-> 4000, nd |-> nd,
                 pa |-> <<>>, pad |-> <<>>, pg |-> <<>>]
Other(a) == 3 - a
(* what an instance may know about the other address *)
Knows(a) == {[x \in {} |-> 0]} \cup {(Other(a) :> <<g, 0, st>>) : g \in 0..1, st \in 0..2}
            \cup (IF FULL THEN {(Other(a) :> <<g, 0, st>>) @@ (a :> <<0, 0, Down>>) : g \in 0..1, st \in 0..2} ELSE {})
Backlogs(a) ==
  {[x \in {} |-> 0], (Other(a) :> [u |-> <<Other(a), 1, 0, Down>>, tx |-> 2])}
  \cup (IF FULL THEN {(Other(a) :> [u |-> <<Other(a), 1, 0, Suspect>>, tx |-> 1]), (a :> [u |-> <<a, 0, 0, Down>>, tx |-> 1])} ELSE {})
StartOf(a) ==
  {[me |-> <<a, 1>>, ren |-> r, cfg |-> Cfg(nd, 2), h |-> [inval |-> 0, elig |-> 0], inc |-> 0,
    conn |-> IF dead THEN "defunct" ELSE IF \E x \in DOMAIN v : Active(v[x]) THEN "active" ELSE "idle",
    tok |-> 0, v |-> v, pr |-> NoPr, ub |-> ub, cb |-> <<>>] :
      r \in {0, 1}, nd \in BOOLEAN, v \in Knows(a), dead \in BOOLEAN, ub \in Backlogs(a)}

Us == {{}, {<<2, 1, 0, Suspect>>}, {<<2, 1, 0, Down>>}, {<<1, 1, 0, Down>>}}
Msg(kind, dst, pn, tgt, ups) ==
  [o |-> "send", to |-> dst, src |-> <<1, 1>>, inc |-> 0, dst |-> dst, kind |-> kind, pn |-> pn, tgt |-> tgt,
   cnt |-> IF Piggybacks(kind) THEN Cardinality(ups) ELSE -1, ups |-> ups, items |-> <<>>]
First ==
  {Msg(k, <<2, 1>>, 0, <<>>, u) : k \in {"ping", "ack", "gossip", "feed"}, u \in Us}
  \cup {Msg(k, <<2, 1>>, 0, t, {}) : k \in {"pingreq", "indping", "indack", "fwdack"}, t \in {<<1, 1>>, <<2, 1>>, <<2, 0>>, <<1, 2>>}}
  \cup {Msg(k, <<2, 1>>, -1, <<>>, {}) : k \in {"turnundead", "broadcast", "announce"}}
  \cup {Msg("announce", <<2, 0>>, -1, <<>>, {})}

Init ==
  /\ inst \in [1..N -> StartOf(1) \cup StartOf(2)] /\ inst[1].me[1] = 1 /\ inst[2].me[1] = 2
  /\ \E m \in First : net = (m :> 1)
  /\ total = 0 /\ most = 0
InitF ==
  /\ \E i \in StartOf(1) : \E j \in StartOf(2) : inst = <<i, j>>
  /\ \E m \in First : net = (m :> 1)
  /\ total = 0 /\ most = 0

Deliver(m) ==
  LET a == m.to[1]
      w == MsgCall(inst[a], m, <<<<1, 2>>>>)
      s == SentBy(w)
  IN /\ inst' = [inst EXCEPT ![a] = w.f]
     /\ net' = PutAll(TakeOne(net, m), s)
     /\ total' = total + 1
     /\ most' = Max2(most, Len(s))
Next == \E m \in DOMAIN net : Deliver(m)

(* 60: far above anything reachable; a message storm passes any bound *)
Ends == total <= 24
Bounded == most <= 5
=============================================================================
