------------------------------- MODULE P_C07 -------------------------------
(* Every emitted datagram: bounded, framed, attributed, accepted by a peer. *)
EXTENDS Obs

Kinds == {"ping", "ack", "pingreq", "indping", "indack", "fwdack", "announce", "feed", "gossip", "broadcast", "turnundead"}

MInit(h) == [b |-> BInit(h), bad |-> "", own |-> OwnInit, mps |-> h.cfg.mps,
             n |-> [ev |-> 0, sends |-> 0, feeds |-> 0, feedrecs |-> 0, updates |-> 0, items |-> 0, nosection |-> 0,
                    full |-> 0, peers |-> 0, shrunk |-> 0, maxrecs |-> 0]]

(* The identities the instance uses during the call: the current one, then
   whatever Rejoin announces (the gossip about a new identity comes before
   its notification).  Sources must follow that order.                     *)
RECURSIVE Walk(_, _, _, _)
Walk(chain, k, out, acc) ==
  IF out = <<>> THEN acc
  ELSE LET o == Head(out)
           js == IF IsNote(o) THEN {j \in k..Len(chain) : chain[j] = o.a}
                 ELSE IF o.hdr THEN {j \in k..Len(chain) : chain[j] = o.src} ELSE {}
           j == IF js = {} THEN k ELSE CHOOSE x \in js : \A y \in js : x <= y
       IN Walk(chain, j, Tail(out), IF IsSend(o) THEN Append(acc, chain[j]) ELSE acc)

MStep(m, e) ==
  IF Panicked(e) THEN m ELSE
  LET b == m.b
      mps == b.cfg.mps
      ss == Sends(e)
      rej == SelectSeq(e.out, LAMBDA o : IsNote(o) /\ o.k = "rejoin")
      first == IF e.c.op = "changeid" /\ e.res = "Ok" THEN e.me ELSE b.me
      chain == <<first>> \o [i \in DOMAIN rej |-> rej[i].a] \o (IF e.res = "Encode" THEN <<e.me>> ELSE <<>>)
      srcs == Walk(chain, 1, SelectSeq(e.out, LAMBDA o : IsSend(o) \/ (IsNote(o) /\ o.k = "rejoin")), <<>>)
      w == OwnWalkOf(m.own, b, e)
      base == IF ResetCall(e) THEN [lo |-> 0, hi |-> 0] ELSE [lo |-> m.own.lo, hi |-> m.own.hi]
      plain == w.touch = 0 /\ rej = <<>> /\ e.me = first
      act == IF HasF(e, "act") THEN {<<e.act[i][1], e.act[i][2]>> : i \in DOMAIN e.act} ELSE {}
      Obl(i) ==
        LET o == ss[i]
            rest == mps - o.hl
        IN FirstBad(<<
        <<o.len <= mps, "datagram larger than max_packet_size">>,
        <<o.hdr, "datagram without a decodable header">>,
        <<o.hdr => o.kind \in Kinds, "unknown kind">>,
        <<o.hdr => o.dst = o.to, "destination in the header is not the one it is handed over for">>,
        <<o.hdr => o.src = srcs[i], "source in the header is not the current identity">>,
        <<o.hdr /\ plain => o.inc >= base.lo /\ o.inc <= base.hi, "incarnation in the header is not the current one">>,
        <<o.hdr /\ plain => o.inc = ss[1].inc, "two incarnations in one call">>,
        <<o.hdr /\ o.kind \in {"announce", "turnundead"} => o.after = 0, "announce/turnundead with a payload">>,
        <<o.hdr => o.mok, "member section does not decode">>,
        <<o.hdr /\ Piggybacks(o.kind) /\ o.cnt = -1 => o.after = 0 /\ rest <= 2, "piggybacking datagram without its member section">>,
        <<o.hdr /\ Piggybacks(o.kind) /\ o.cnt # -1 => Len(o.ups) = o.cnt, "member count does not match the members">>,
        <<o.hdr /\ o.kind = "broadcast" => o.cnt = -1, "broadcast with a member section">>,
        <<o.hdr => o.tok, "custom broadcast tail is malformed">>,
        <<o.hdr => \A k \in DOMAIN o.items : Len(o.items[k]) > 0, "empty custom broadcast item">>,
        <<o.hdr /\ o.kind = "feed" => \A k \in DOMAIN o.ups : o.ups[k][4] # Down /\ <<o.ups[k][1], o.ups[k][2]>> \in act,
          "feed lists a member that is not active">>,
        <<o.hdr /\ o.kind = "feed" => \A k \in DOMAIN o.ups : <<o.ups[k][1], o.ups[k][2]>> # o.to, "feed lists its receiver">>,
        <<o.hdr /\ o.kind = "feed" => \A k \in DOMAIN o.ups : <<o.ups[k][1], o.ups[k][2]>> # o.src, "feed lists its sender">>,
        <<o.hdr /\ o.kind = "feed" => Cardinality({o.ups[k][1] : k \in DOMAIN o.ups}) = Len(o.ups), "feed repeats a member">>,
        <<HasF(o, "peer") => o.peer \notin {"Decode", "MalformedPacket", "DataTooBig", "panic"},
          "peer rejects the datagram">> >>)
      bads == SelectSeq([i \in DOMAIN ss |-> Obl(i)], LAMBDA x : x # "")
      f == SelectSeq(ss, LAMBDA o : o.hdr /\ o.kind = "feed")
      SumS(g(_)) == FoldFunction(LAMBDA x, a : g(x) + a, 0, ss)
      z == m.n
  IN [m EXCEPT !.b = BStep(b, e), !.own = OwnAfter(m.own, b, e),
        !.bad = IF bads = <<>> THEN "" ELSE bads[1],
        !.n = [ev |-> z.ev + 1, sends |-> z.sends + Len(ss), feeds |-> z.feeds + Len(f),
               feedrecs |-> z.feedrecs + FoldFunction(LAMBDA x, a : Len(x.ups) + a, 0, f),
               updates |-> z.updates + SumS(LAMBDA o : Len(o.ups)),
               items |-> z.items + SumS(LAMBDA o : Len(o.items)),
               nosection |-> z.nosection + SumS(LAMBDA o : B2N(o.hdr /\ Piggybacks(o.kind) /\ o.cnt = -1)),
               full |-> z.full + SumS(LAMBDA o : B2N(mps - o.len < 12)),
               peers |-> z.peers + SumS(LAMBDA o : B2N(HasF(o, "peer") /\ o.peer = "Ok")),
               shrunk |-> z.shrunk + B2N(e.c.op = "setcfg" /\ e.res = "Ok" /\ e.c.cfg.mps < mps),
               maxrecs |-> Max2(z.maxrecs, FoldFunction(LAMBDA x, a : Max2(Len(x.ups), a), 0, ss))]]
=============================================================================
