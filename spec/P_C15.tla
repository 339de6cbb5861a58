------------------------------- MODULE P_C15 -------------------------------
(***************************************************************************)
(* Dissemination accounting.  The backlog is reconstructed from what the   *)
(* instance was told and from the update sections of what it sent.         *)
(* Histories mention the own identity only as the last update of a call,   *)
(* so that everything queued by a call precedes what the call sends.       *)
(***************************************************************************)
EXTENDS Backlog

MInit(h) == [b |-> BInit(h), h |-> h, tm |-> <<>>, bk |-> EmptyBk, lost |-> FALSE, bad |-> "",
             n |-> [ev |-> 0, sends |-> 0, queued |-> 0, sent |-> 0, partial |-> 0, replaced |-> 0, spent |-> 0,
                    quiet |-> 0, other |-> 0, maxbk |-> 0]]

Updates(o) == [i \in DOMAIN o.ups |-> SubSeq(o.ups[i], 1, 4)]

(* Walks over what was sent; w = [bk, bad, ...] *)
SendOne(w, o, cfg, h) ==
  IF ~o.hdr \/ ~UpdatesIn(o.kind) THEN [w EXCEPT !.other = @ + 1]
  ELSE
  LET us == Updates(o)
      A == {us[i][1] : i \in DOMAIN us}
      bk == w.bk
      pend == \A i \in DOMAIN us : us[i][1] \in DOMAIN bk /\ bk[us[i][1]].u = us[i]
      space == cfg.mps - o.hl - 2
      L(a) == EncLen(h.codec, h.var, bk[a].u)
      omitted == DOMAIN bk \ A
      left == space - SumLen(A, L)
      bad == FirstBad(<<
        <<Cardinality(A) = Len(us), "an update is repeated within a datagram">>,
        <<pend, "datagram carries an update that is not the latest accepted one or has no transmission left">>,
        <<pend => \A i \in DOMAIN us : o.ups[i][5] = L(us[i][1]), "unexpected encoded length">>,
        <<pend => \A a \in omitted : L(a) > left, "a pending update that still fits was omitted">>,
        <<pend => \A t \in {bk[a].tx : a \in omitted} :
             LET free == space - SumLen({x \in A : bk[x].tx >= t}, L)
             IN \A a \in omitted : bk[a].tx = t => L(a) > free,
          "an update with fewer transmissions left took the place of one with more">> >>)
  IN [w EXCEPT !.bad = IF @ = "" THEN bad ELSE @,
               !.bk = IF bad = "" THEN Spend(bk, A) ELSE bk,
               !.sends = @ + 1, !.sent = @ + Len(us),
               !.partial = @ + B2N(omitted # {}),
               !.spent = @ + Cardinality({a \in A : a \in DOMAIN bk /\ bk[a].tx = 1})]

RECURSIVE SendAll(_, _, _, _)
SendAll(w, ss, cfg, h) == IF ss = <<>> THEN w ELSE SendAll(SendOne(w, Head(ss), cfg, h), Tail(ss), cfg, h)

MStep(m, e) ==
  IF Panicked(e) \/ m.lost THEN [m EXCEPT !.lost = TRUE] ELSE
  LET b == m.b
      c == e.c
      v == MemAfter(b, e)
      tx == b.cfg.mtx
      acc == DataAccepted(b, e)
      heard == IF acc /\ Changes(b.mem, <<c.src[1], c.src[2], c.inc, Alive>>)
               THEN <<<<c.src[1], c.src[2], c.inc, Alive>>>> ELSE <<>>
      bc == IF c.op = "apply" THEN c.bc ELSE TRUE
      r1 == ApplyAll(b.mem, m.bk, heard \o AppliedUpdates(b, e), b.me, tx, bc)
      (* timers: the change of a single record, by probe round or timeout *)
      changed == {a \in DOMAIN v : ~Has(b.mem, a) \/ v[a] # b.mem[a]}
      r2 == IF c.op \in {"timer", "crafted"} /\ c.t \in {"probe", "s2d"} /\ Cardinality(changed) = 1
            THEN LET a == CHOOSE a \in changed : TRUE IN Enq(r1[2], <<a, v[a][1], v[a][2], v[a][3]>>, tx)
            ELSE r1[2]
      (* the death of the own identity *)
      rejoin == \E o \in Rng(e.out) : IsNote(o) /\ o.k = "rejoin"
      ownDown == (c.op = "leave" /\ e.res \in {"Ok", "Encode"})
                 \/ (c.op = "changeid" /\ e.res \in {"Ok", "Encode"} /\ b.conn # "defunct")
                 \/ (c.op \in {"data", "apply"} /\ rejoin /\ b.conn # "defunct")
      r3 == IF ownDown THEN Enq(r2, <<b.me[1], b.me[2], 0, Down>>, tx) ELSE r2
      w == SendAll([bk |-> r3, bad |-> "", sends |-> 0, sent |-> 0, partial |-> 0, spent |-> 0, other |-> 0],
                   Sends(e), b.cfg, m.h)
      bad == FirstBad(<<
        <<w.bad = "", w.bad>>,
        <<c.op = "apply" /\ ~c.bc /\ ~rejoin /\ Sends(e) = <<>> => e.ub = Cardinality(DOMAIN m.bk),
          "applying without broadcast touched the backlog">>,
        <<e.ub = Cardinality(DOMAIN w.bk), "backlog size differs from the accounting"
             \o ToString(<<e.ub, Cardinality(DOMAIN w.bk)>>)>> >>)
      z == m.n
  IN [b |-> BStep(b, e), h |-> m.h, tm |-> m.tm, bk |-> w.bk, lost |-> FALSE, bad |-> bad,
      n |-> [ev |-> z.ev + 1, sends |-> z.sends + w.sends, sent |-> z.sent + w.sent,
             partial |-> z.partial + w.partial, spent |-> z.spent + w.spent, other |-> z.other + w.other,
             queued |-> z.queued + Cardinality({a \in DOMAIN r3 : a \notin DOMAIN m.bk \/ r3[a] # m.bk[a]}),
             replaced |-> z.replaced + Cardinality({a \in DOMAIN r3 : a \in DOMAIN m.bk /\ r3[a].u # m.bk[a].u}),
             quiet |-> z.quiet + B2N(c.op = "apply" /\ ~c.bc /\ changed # {}),
             maxbk |-> Max2(z.maxbk, Cardinality(DOMAIN w.bk))]]
=============================================================================
