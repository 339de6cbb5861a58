------------------------------- MODULE P_C16 -------------------------------
(***************************************************************************)
(* Custom broadcasts.  bk is the sequence of accepted items still to be    *)
(* retransmitted: [d |-> bytes, tx |-> transmissions left].  The key of an *)
(* item is its first byte, its version the second.                         *)
(***************************************************************************)
EXTENDS Obs

MInit(h) == [b |-> BInit(h), h |-> h, bk |-> <<>>, lost |-> FALSE, bad |-> "",
             n |-> [ev |-> 0, added |-> 0, received |-> 0, refused |-> 0, errors |-> 0, sent |-> 0, invalidated |-> 0,
                    ineligible |-> 0, broadcasts |-> 0, drained |-> 0, full |-> 0]]

ByteAt(d, i) == IF Len(d) >= i THEN d[i] ELSE 0
KV(d) == <<ByteAt(d, 1), ByteAt(d, 2)>>
(* the invalidation relations of the harness' handler *)
Inval(mode, a, b) ==
  CASE mode = 0 -> a[1] = b[1]
    [] mode = 1 -> a[1] = b[1] /\ a[2] > b[2]
    [] mode = 2 -> FALSE
    [] mode = 3 -> TRUE
    [] mode = 4 -> a[1] % 2 = b[1] % 2
    [] OTHER -> a[1] > b[1]
Eligible(mode, addr) ==
  CASE mode = 0 -> TRUE [] mode = 1 -> addr % 2 = 0 [] mode = 2 -> FALSE [] OTHER -> addr % 3 # 0

Accept(bk, d, tx, mode) ==
  Append(SelectSeq(bk, LAMBDA x : ~Inval(mode, KV(d), KV(x.d))), [d |-> d, tx |-> tx])
RECURSIVE AcceptAll(_, _, _, _)
AcceptAll(bk, rx, tx, mode) ==
  IF rx = <<>> THEN bk
  ELSE AcceptAll(IF Head(rx).res = 1 THEN Accept(bk, Head(rx).data, tx, mode) ELSE bk, Tail(rx), tx, mode)

(* Matches the items of a datagram against the backlog: each item uses an  *)
(* entry of its own; 0 when there is none                                  *)
RECURSIVE Match(_, _, _)
Match(bk, items, used) ==
  IF items = <<>> THEN used
  ELSE LET C == {i \in DOMAIN bk : bk[i].d = Head(items) /\ i \notin used}
       IN IF C = {} THEN used \cup {0}
          ELSE LET i == CHOOSE i \in C : \A j \in C : bk[i].tx >= bk[j].tx
               IN Match(bk, Tail(items), used \cup {i})

SpendItems(bk, U) ==
  LET spent == [i \in DOMAIN bk |-> IF i \in U THEN [bk[i] EXCEPT !.tx = @ - 1] ELSE bk[i]]
  IN SelectSeq(spent, LAMBDA x : x.tx > 0)

SendOne(w, o, cfg, h, isB) ==
  IF ~o.hdr THEN w ELSE
  LET el == Eligible(h.elig, o.to[1])
      U == Match(w.bk, o.items, {})
      (* a Feed's last record may have been tried in vain, and the room it took is then lost *)
      room == cfg.mps - o.len - (IF o.kind = "feed" THEN 64 ELSE 0)
      bad == FirstBad(<<
        <<o.tok, "custom broadcast section is not a sequence of whole items">>,
        <<o.items = <<>> \/ CarriesItems(o.kind), "items on a message kind that may not carry them">>,
        <<o.items = <<>> \/ el, "items sent to a member that is not eligible">>,
        <<0 \notin U, "item sent that was not accepted, was invalidated or has no transmission left">>,
        <<~(el /\ CarriesItems(o.kind)) \/ \A i \in DOMAIN w.bk : i \in U \/ Len(w.bk[i].d) + 2 > room,
          "item that still fits was left out">>,
        <<~isB \/ (o.kind = "broadcast" /\ el), "broadcast() sent something else or to an ineligible member">>,
        <<~isB \/ w.bk # <<>>, "broadcast() went on after the backlog was drained">> >>)
  IN [w EXCEPT !.bad = IF @ = "" THEN bad ELSE @, !.bk = IF bad = "" THEN SpendItems(@, U) ELSE @,
               !.sent = @ + Len(o.items), !.inel = @ + B2N(~el /\ w.bk # <<>>),
               !.full = @ + B2N(el /\ CarriesItems(o.kind) /\ Len(w.bk) > Len(o.items)),
               !.kinds = IF o.items = <<>> THEN @ ELSE @ \cup {o.kind}]

RECURSIVE SendAll(_, _, _, _, _)
SendAll(w, ss, cfg, h, isB) ==
  IF ss = <<>> THEN w ELSE SendAll(SendOne(w, Head(ss), cfg, h, isB), Tail(ss), cfg, h, isB)

(* What the handler must have seen *)
RECURSIVE UpToError(_, _)
UpToError(items, rx) ==
  IF items = <<>> \/ rx = <<>> THEN <<>>
  ELSE IF Head(rx).res = 2 THEN <<Head(items)>> ELSE <<Head(items)>> \o UpToError(Tail(items), Tail(rx))

MStep(m, e) ==
  IF Panicked(e) \/ m.lost THEN [m EXCEPT !.lost = TRUE] ELSE
  LET b == m.b
      c == e.c
      acc == DataAccepted(b, e) /\ SenderActive(b.mem, c.src)
      errAt == {i \in DOMAIN e.rx : e.rx[i].res = 2}
      nseen == Len(e.rx)
      rxok ==
        IF c.op = "data" THEN
          IF ~acc THEN e.rx = <<>>
          ELSE /\ nseen <= Len(c.items)
               /\ \A i \in DOMAIN e.rx : e.rx[i].data = c.items[i] /\ e.rx[i].from = c.src
               /\ (nseen = Len(c.items) \/ (nseen > 0 /\ e.rx[nseen].res = 2))
               /\ \A i \in DOMAIN e.rx : e.rx[i].res = 2 => i = nseen
        ELSE IF c.op = "addb" THEN
          IF c.len = 0 \/ c.len > b.cfg.mps THEN e.rx = <<>>
          ELSE Len(e.rx) = 1 /\ e.rx[1].data = c.data /\ e.rx[1].from = <<>>
        ELSE e.rx = <<>>
      addres ==
        c.op # "addb" \/ e.res = (CASE c.len = 0 -> "MalformedPacket"
                                    [] c.len > b.cfg.mps -> "DataTooBig"
                                    [] e.rx # <<>> /\ e.rx[1].res = 1 -> "OkTrue"
                                    [] e.rx # <<>> /\ e.rx[1].res = 0 -> "OkFalse"
                                    [] OTHER -> "CustomBroadcast")
      isB == c.op = "broadcast"
      ss == Sends(e)
      W(bk) == [bk |-> bk, bad |-> "", sent |-> 0, inel |-> 0, full |-> 0, kinds |-> {}]
      (* gossip caused by updates about ourselves precedes the items *)
      early(o) == c.op = "data" /\ o.hdr /\ o.kind = "gossip" /\ c.kind # "turnundead"
      w1 == SendAll(W(m.bk), SelectSeq(ss, early), b.cfg, m.h, FALSE)
      bk2 == AcceptAll(w1.bk, e.rx, b.cfg.mtx, m.h.inval)
      w2 == SendAll(W(bk2), SelectSeq(ss, LAMBDA o : ~early(o)), b.cfg, m.h, isB)
      dests == {ss[i].to : i \in DOMAIN ss}
      acts == ActiveIds(b.mem)
      bad == FirstBad(<<
        <<rxok, "the handler did not see exactly the items received">>,
        <<addres, "unexpected result of add_broadcast">>,
        <<w1.bad = "", w1.bad>>,
        <<w2.bad = "", w2.bad>>,
        <<isB => Len(ss) <= b.cfg.fan /\ Cardinality(dests) = Len(ss) /\ dests \subseteq acts,
          "broadcast() must pick at most num_indirect_probes distinct active members">>,
        <<isB /\ m.bk = <<>> => ss = <<>>, "broadcast() sent something although the backlog is empty">>,
        <<isB => \A i \in DOMAIN ss : ss[i].hdr => ss[i].cnt = -1, "Broadcast datagram carries member updates">>,
        <<e.cb = Len(w2.bk), "custom backlog size differs from the accounting">> >>)
      z == m.n
      nacc == Cardinality({i \in DOMAIN e.rx : e.rx[i].res = 1})
  IN [b |-> BStep(b, e), h |-> m.h, bk |-> w2.bk, lost |-> FALSE, bad |-> bad,
      n |-> [ev |-> z.ev + 1,
             added |-> z.added + (IF c.op = "addb" THEN nacc ELSE 0),
             received |-> z.received + (IF c.op = "data" THEN nacc ELSE 0),
             refused |-> z.refused + (nseen - nacc), errors |-> z.errors + Cardinality(errAt),
             sent |-> z.sent + w1.sent + w2.sent,
             invalidated |-> z.invalidated + (Len(w1.bk) + nacc - Len(bk2)),
             ineligible |-> z.ineligible + w1.inel + w2.inel,
             broadcasts |-> z.broadcasts + B2N(isB /\ ss # <<>>),
             drained |-> z.drained + B2N(isB /\ m.bk # <<>> /\ w2.bk = <<>>),
             full |-> z.full + w1.full + w2.full]]
=============================================================================
