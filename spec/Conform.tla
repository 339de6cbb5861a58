------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Strict conformance of recorded histories with Foca.tla: the first call  *)
(* whose effects, result or visible state differ is reported as a DRIFT    *)
(* (information about the specification's fidelity, never a violation).    *)
(***************************************************************************)
EXTENDS Foca, TraceIO

StripS(o) ==
  IF o.o = "send"
  THEN [o |-> "send", to |-> o.to, src |-> o.src, inc |-> o.inc, dst |-> o.dst, kind |-> o.kind, pn |-> o.pn,
        tgt |-> o.tgt, cnt |-> o.cnt, ups |-> {SubSeq(o.ups[i], 1, 4) : i \in DOMAIN o.ups},
        items |-> {<<i, o.items[i]>> : i \in DOMAIN o.items}]
  ELSE IF o.o = "timer"
  THEN [o |-> "timer", t |-> o.t, tok |-> o.tok, id |-> o.id, inc |-> o.inc, after |-> o.after]
  ELSE o
BagOf(s) == {<<x, Cardinality({i \in DOMAIN s : s[i] = x})>> : x \in Rng(s)}
SameOut(p, o) ==  \* p predicted, o observed
  IF p.o # "send" THEN p = StripS(o)
  ELSE /\ o.o = "send" /\ o.hdr
       /\ LET q == StripS(o)
          IN [p EXCEPT !.items = {}] = [q EXCEPT !.items = {}] /\ Len(o.ups) = Cardinality(p.ups)
             /\ BagOf(p.items) = BagOf(o.items)

(* a datagram that may have left something out for want of room: Foca.tla has no sizes *)
ItemsOf(e) == IF HasF(e.c, "items") THEN e.c.items ELSE IF e.c.op = "bcast" /\ HasF(e.c, "item") THEN <<e.c.item>> ELSE <<>>
Longest(g, e) ==
  LET ls == {0} \cup {Len(g.cb[i].d) : i \in DOMAIN g.cb} \cup {Len(ItemsOf(e)[i]) : i \in DOMAIN ItemsOf(e)}
  IN CHOOSE x \in ls : \A y \in ls : y <= x
Tight(g, e) ==
  LET big == {i \in DOMAIN e.out : IsSend(e.out[i])}
  IN big # {} /\ LET m == Longest(g, e) IN \E i \in big : e.out[i].len + 200 + m > g.cfg.mps
Compare(g, e) ==
  LET ss == Sends(e)
      w == CallW(Begin(g, TRUE, [i \in DOMAIN ss |-> ss[i].to], [i \in DOMAIN e.rx |-> e.rx[i].res]), e.c)
      vis == IF HasF(e, "mem") THEN View(e.mem) ELSE g.v
      d == IF w.drift # "" THEN w.drift ELSE FirstBad(<<
        <<ResultOf(w) = e.res, "result">>,
        <<Len(w.out) = Len(e.out), "number of effects">>,
        <<Len(w.out) # Len(e.out) \/ \A i \in DOMAIN w.out : SameOut(w.out[i], e.out[i]), "effects">>,
        <<w.f.me = e.me, "identity">>,
        <<w.f.v = vis, "membership">>,
        <<Cardinality(Actives(w.f)) = e.num, "num_members">>,
        <<Cardinality(DOMAIN w.f.ub) = e.ub, "updates backlog">>,
        <<Len(w.f.cb) = e.cb, "custom backlog">>,
        <<w.rx = e.rx, "items seen by the handler">> >>)
  IN [f |-> w.f, d |-> d]

VARIABLES tid, l, f, lost, bad
Ev == Traces[tid].ev[l]
Init == tid \in DOMAIN Traces /\ l = 1 /\ f = FInit(Traces[tid].h) /\ lost = FALSE /\ bad = ""
Next ==
  /\ l <= Len(Traces[tid].ev) /\ bad = "" /\ ~lost
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ IF Panicked(Ev) \/ Ev.res = "Encode" \/ Tight(f, Ev) THEN lost' = TRUE /\ UNCHANGED <<f, bad>>
     ELSE LET r == Compare(f, Ev) IN f' = r.f /\ bad' = r.d /\ lost' = FALSE
  /\ bad' # "" => PrintT("BAD " \o ToJson(<<Traces[tid].tid, l, bad'>>))
  /\ l = Len(Traces[tid].ev) \/ lost' => PrintT("COV " \o ToJson(<<Traces[tid].tid, [ev |-> l, lost |-> B2N(lost')]>>))
=============================================================================
