-------------------------------- MODULE Foca --------------------------------
(***************************************************************************)
(* The protocol of one instance as a state machine: every public call is   *)
(* an operator from the state (and the call) to the next state, the        *)
(* ordered effects and the result.  What the code leaves to chance (which  *)
(* members are picked, in which order) comes from an oracle:               *)
(*   guided   - orc is the sequence of destinations of an observed call;   *)
(*   free     - orc is a sequence of priority lists of addresses, one per  *)
(*              choice of the call (the last one repeats).                 *)
(* Datagrams are assumed large enough for everything there is to send (the *)
(* accounting under tight limits is specified by P_C07, P_C15 and P_C16).  *)
(***************************************************************************)
EXTENDS Obs

NoPr == [d |-> <<>>, num |-> 0, ok |-> FALSE, ind |-> <<>>, cnt |-> 0, ref |-> FALSE]
FInit(h) ==
  [me |-> h.me, ren |-> h.ren, cfg |-> h.cfg, h |-> [inval |-> h.inval, elig |-> h.elig],
   inc |-> 0, conn |-> "idle", tok |-> 0, v |-> [x \in {} |-> 0], pr |-> NoPr,
   ub |-> [x \in {} |-> 0], cb |-> <<>>]

(***************************************************************************)
(* A call in progress: the state plus effects, error, oracle               *)
(***************************************************************************)
Begin(f, guided, orc, rxs) ==
  [f |-> f, out |-> <<>>, err |-> "", g |-> guided, orc |-> orc, pos |-> 0, ch |-> 1, drift |-> "",
   rxs |-> rxs, rx |-> <<>>, ret |-> FALSE]
Live(w) == w.err = "" /\ w.drift = ""

NoteW(w, k, a, b) == [w EXCEPT !.out = Append(@, [o |-> "note", k |-> k, a |-> a, b |-> b])]
TimerW(w, t, id, inc, tok, after) ==
  [w EXCEPT !.out = Append(@, [o |-> "timer", t |-> t, tok |-> tok, id |-> id, inc |-> inc, after |-> after])]
LoopW(w, t, after) == TimerW(w, t, <<>>, -1, w.f.tok, after)

(* custom broadcasts: the key of an item is its first byte, its version the second *)
ByteOf(d, i) == IF Len(d) >= i THEN d[i] ELSE 0
KeyOf(d) == <<ByteOf(d, 1), ByteOf(d, 2)>>
Invalid8(mode, a, b) ==
  CASE mode = 0 -> a[1] = b[1]
    [] mode = 1 -> a[1] = b[1] /\ a[2] > b[2]
    [] mode = 2 -> FALSE
    [] mode = 3 -> TRUE
    [] mode = 4 -> a[1] % 2 = b[1] % 2
    [] OTHER -> a[1] > b[1]
MayGet(mode, addr) ==
  CASE mode = 0 -> TRUE [] mode = 1 -> addr % 2 = 0 [] mode = 2 -> FALSE [] OTHER -> addr % 3 # 0
AddItem(w, d) ==
  [w EXCEPT !.f.cb = Append(SelectSeq(@, LAMBDA x : ~Invalid8(w.f.h.inval, KeyOf(d), KeyOf(x.d))),
                            [d |-> d, tx |-> w.f.cfg.mtx])]

(* member updates *)
EnqW(w, u) == [w EXCEPT !.f.ub = Put(@, u[1], [u |-> u, tx |-> w.f.cfg.mtx])]
SpendAllUb(ub) ==
  LET keep == {a \in DOMAIN ub : ub[a].tx > 1}
  IN [a \in keep |-> [ub[a] EXCEPT !.tx = @ - 1]]
SpendAllCb(cb) ==
  SelectSeq([i \in DOMAIN cb |-> [cb[i] EXCEPT !.tx = @ - 1]], LAMBDA x : x.tx > 0)

ActivesExcept(f, id) == {a \in DOMAIN f.v : Active(f.v[a]) /\ <<a, f.v[a][1]>> # id}
RecOf(f, a) == <<a, f.v[a][1], f.v[a][2], f.v[a][3]>>

SendW(w, to, kind, pn, tgt) ==
  IF ~Live(w) THEN w ELSE
  LET f == w.f
      ups == IF kind = "feed" THEN {RecOf(f, a) : a \in ActivesExcept(f, to)}
             ELSE IF UpdatesIn(kind) THEN {f.ub[a].u : a \in DOMAIN f.ub}
             ELSE {}
      el == CarriesItems(kind) /\ MayGet(f.h.elig, to[1])
  IN [w EXCEPT
        !.out = Append(@, [o |-> "send", to |-> to, src |-> f.me, inc |-> f.inc, dst |-> to, kind |-> kind,
                           pn |-> pn, tgt |-> tgt, cnt |-> IF Piggybacks(kind) THEN Cardinality(ups) ELSE -1,
                           ups |-> ups, items |-> IF el THEN [i \in DOMAIN f.cb |-> f.cb[i].d] ELSE <<>>]),
        !.f.ub = IF UpdatesIn(kind) THEN SpendAllUb(@) ELSE @,
        !.f.cb = IF el THEN SpendAllCb(@) ELSE @,
        !.pos = @ + 1]

(* The next pick among the addresses E (current member identities) *)
PrefOf(w) == w.orc[Min2(w.ch, Len(w.orc))]
NextPick(w, E) ==
  IF w.g THEN IF w.pos + 1 \in DOMAIN w.orc THEN w.orc[w.pos + 1][1] ELSE -1
  ELSE LET P == SelectSeq(PrefOf(w), LAMBDA a : a \in E)
       IN IF P = <<>> THEN CHOOSE a \in E : TRUE ELSE P[1]
(* k distinct picks out of E, each sent the message (kind, pn, tgt) *)
RECURSIVE FanW(_, _, _, _, _, _)
FanW(w, E, k, kind, pn, tgt) ==
  IF ~Live(w) THEN w
  ELSE IF k = 0 \/ E = {} THEN [w EXCEPT !.ch = @ + 1]
  ELSE LET a == NextPick(w, E)
           id == <<a, w.f.v[a][1]>>
           w1 == SendW(IF kind = "pingreq" THEN [w EXCEPT !.f.pr.ind = Append(@, id)] ELSE w, id, kind, pn, tgt)
       IN IF a \notin E THEN [w EXCEPT !.drift = "picked something ineligible, twice, or too few"]
          ELSE IF kind = "broadcast" /\ w1.f.cb = <<>> THEN [w1 EXCEPT !.ch = @ + 1]
          ELSE FanW(w1, E \ {a}, k - 1, kind, pn, tgt)

Actives(f) == {a \in DOMAIN f.v : Active(f.v[a])}
GossipW(w) == FanW(w, Actives(w.f), w.f.cfg.fan, "gossip", -1, <<>>)

(***************************************************************************)
(* Connection state                                                        *)
(***************************************************************************)
Bump(w) == [w EXCEPT !.f.tok = (@ + 1) % 256]
ClearPr(w) == [w EXCEPT !.f.pr = [NoPr EXCEPT !.num = w.f.pr.num]]
ResetW(w) == LET x == ClearPr(Bump(w)) IN [x EXCEPT !.f.conn = "idle", !.f.inc = 0]
DefunctW(w) == IF ~Live(w) THEN w ELSE LET x == ClearPr(Bump(w)) IN NoteW([x EXCEPT !.f.conn = "defunct"], "defunct", <<>>, <<>>)
AdjustW(w) ==
  IF ~Live(w) THEN w ELSE
  LET n == Cardinality(Actives(w.f)) IN
  IF w.f.conn = "idle" /\ n > 0 THEN
    LET a == LoopW([w EXCEPT !.f.conn = "active"], "probe", w.f.cfg.pp)
        b == IF w.f.cfg.pa # <<>> THEN LoopW(a, "pa", w.f.cfg.pa[1]) ELSE a
        c == IF w.f.cfg.pad # <<>> THEN LoopW(b, "pad", w.f.cfg.pad[1]) ELSE b
        d == IF w.f.cfg.pg # <<>> THEN LoopW(c, "pg", w.f.cfg.pg[1]) ELSE c
    IN NoteW(d, "active", <<>>, <<>>)
  ELSE IF w.f.conn = "active" /\ n = 0 THEN
    LET x == ClearPr(Bump(w)) IN NoteW([x EXCEPT !.f.conn = "idle"], "idle", <<>>, <<>>)
  ELSE w

(***************************************************************************)
(* Knowledge about others.  Sets ret: does the update say "active"?        *)
(***************************************************************************)
SummaryW(w, u, bc, ok, activeNow, changed, old) ==
  LET id == <<u[1], u[2]>>
      w1 == IF ok /\ bc THEN EnqW(w, u) ELSE w
      w2 == IF ok /\ ~activeNow THEN TimerW(w1, "rm", id, -1, -1, w.f.cfg.rmd) ELSE w1
      w3 == IF old # <<>> THEN NoteW(w2, "rename", old, id) ELSE w2
  IN IF ~changed THEN w3 ELSE NoteW(w3, IF activeNow THEN "up" ELSE "down", id, <<>>)

LearnW(w, u, bc) ==
  IF ~Live(w) THEN w ELSE
  LET f == w.f
      a == u[1]
      r == <<u[2], u[3], u[4]>>
      w1 == [w EXCEPT !.f.v = Put(@, a, r), !.ret = Active(r)]
  IN IF ~Has(f.v, a) THEN SummaryW(w1, u, bc, TRUE, Active(r), Active(r), <<>>)
     ELSE LET o == f.v[a] IN
       IF u[2] < o[1] THEN [w EXCEPT !.ret = FALSE]
       ELSE IF u[2] > o[1] THEN SummaryW(w1, u, bc, TRUE, Active(r), Active(r) # Active(o), <<a, o[1]>>)
       ELSE IF Beats(r, o) THEN SummaryW(w1, u, bc, TRUE, Active(r), Active(r) # Active(o), <<>>)
       ELSE [w EXCEPT !.ret = Active(o)]

(***************************************************************************)
(* Knowledge about ourselves                                               *)
(***************************************************************************)
ChangeIdW(w, id, ren) ==
  LET was == w.f.conn = "defunct"
      prev == w.f.me
      a == ResetW([w EXCEPT !.f.me = id, !.f.ren = ren])
      b == IF was THEN a ELSE EnqW(a, <<prev[1], prev[2], 0, Down>>)
  IN GossipW(b)
RejoinW(w) ==
  IF ~Live(w) THEN w ELSE
  LET id == Renewed(w.f.ren, w.f.me)
      a == ChangeIdW(w, id, w.f.ren)
      b == NoteW(a, "rejoin", id, <<>>)
  IN FanW(b, Actives(b.f), b.f.cfg.fan, "announce", -1, <<>>)
DieW(w) == IF CanRenew(w.f.ren, w.f.me) THEN RejoinW(w) ELSE DefunctW(w)
SelfW(w, inc, st) ==
  IF ~Live(w) \/ st = Alive THEN w
  ELSE IF st = Down \/ Max2(inc, w.f.inc) = MaxInc THEN DieW(w)
  ELSE LET w1 == [w EXCEPT !.f.inc = IF inc >= @ THEN inc + 1 ELSE @]
       IN IF w.f.conn = "defunct" THEN w1 ELSE GossipW(w1)

RECURSIVE ManyW(_, _, _)
ManyW(w, us, bc) ==
  IF us = <<>> \/ ~Live(w) THEN w
  ELSE LET u == Head(us)
           x == IF u[1] = w.f.me[1] /\ u[2] = w.f.me[2] THEN SelfW(w, u[3], u[4])
                ELSE LearnW(w, AsSeenBy(w.f.me, u), bc)
       IN ManyW(x, Tail(us), bc)
ApplyW(w, us, bc) == AdjustW(ManyW(w, us, bc))

(***************************************************************************)
(* Probing                                                                 *)
(***************************************************************************)
PrOk(p) == p.ok \/ p.cnt > 0
SuspectW(w, d) ==   \* the probe of d failed
  LET f == w.f
      u == <<d[1], d[2], d[3], Suspect>>
  IN IF ~Has(f.v, d[1]) THEN w
     ELSE LET o == f.v[d[1]] IN
       IF o[1] > d[2] THEN IF Active(o) THEN TimerW(w, "s2d", <<d[1], d[2]>>, d[3], f.tok, f.cfg.s2d) ELSE w
       ELSE LET x == LearnW(w, u, TRUE)
            IN IF Active(x.f.v[d[1]]) THEN TimerW(x, "s2d", <<d[1], d[2]>>, d[3], f.tok, f.cfg.s2d) ELSE x

ProbeW(w0) ==
  LET inc == w0.f.pr.d # <<>> /\ ~w0.f.pr.ref
      w == IF inc THEN ClearPr(w0) ELSE w0
      p == w.f.pr
      fail == ~PrOk(p) /\ p.d # <<>>
      w1 == IF fail THEN SuspectW([w EXCEPT !.f.pr.d = <<>>], p.d) ELSE w
      A == Actives(w1.f)
      a == NextPick(w1, A)
      w2 == IF A = {} THEN w1
            ELSE IF a \notin A THEN [w1 EXCEPT !.drift = "probed something that is not active"]
            ELSE LET n == (p.num + 1) % 256
                     id == <<a, w1.f.v[a][1]>>
                     x == SendW([w1 EXCEPT !.ch = @ + 1, !.f.pr = [NoPr EXCEPT !.num = n, !.d = RecOf(w1.f, a)]],
                                id, "ping", n, <<>>)
                 IN TimerW(x, "ind", id, -1, x.f.tok, x.f.cfg.rtt)
      w3 == IF w2.drift # "" THEN w2 ELSE LoopW(w2, "probe", w2.f.cfg.pp)
  IN IF inc THEN [w3 EXCEPT !.err = "IncompleteProbeCycle"] ELSE w3

IndirectW(w0, id) ==
  LET w == [w0 EXCEPT !.f.pr.ref = TRUE]
      p == w.f.pr
      probing == p.d # <<>> /\ <<p.d[1], p.d[2]>> = id
      act == Has(w.f.v, id[1]) /\ w.f.v[id[1]][1] = id[2] /\ Active(w.f.v[id[1]])
  IN IF ~probing \/ PrOk(p) \/ ~act THEN w
     ELSE FanW(w, Actives(w.f) \ {id[1]}, w.f.cfg.fan, "pingreq", p.num, id)

(***************************************************************************)
(* Timers                                                                  *)
(***************************************************************************)
TimeoutW(w, id, inc) ==
  LET f == w.f IN
  IF ~Has(f.v, id[1]) THEN w
  ELSE LET o == f.v[id[1]] IN
    IF o[1] # id[2] \/ o[2] # inc \/ ~Active(o) THEN w
    ELSE LET x == AdjustW(LearnW(w, <<id[1], id[2], inc, Down>>, TRUE))
         IN IF f.cfg.nd THEN SendW(x, id, "turnundead", -1, <<>>) ELSE x

DownsElsewhere(f) == {a \in DOMAIN f.v : ~Active(f.v[a]) /\ a # f.me[1]}
FireW(w, c) ==
  LET f == w.f
      cur == c.tok = f.tok
  IN CASE c.t = "rm" ->
            IF Has(f.v, c.id[1]) /\ f.v[c.id[1]][1] = c.id[2] /\ ~Active(f.v[c.id[1]])
            THEN [w EXCEPT !.f.v = Del(@, c.id[1])] ELSE w
       [] c.t = "probe" -> IF ~cur THEN w ELSE IF f.conn # "active" THEN [w EXCEPT !.err = "NotConnected"] ELSE ProbeW(w)
       [] c.t = "ind" -> IF ~cur THEN w ELSE IndirectW(w, c.id)
       [] c.t = "s2d" -> IF ~cur THEN w ELSE TimeoutW(w, c.id, c.inc)
       [] c.t = "pa" -> IF ~cur \/ f.conn # "active" \/ f.cfg.pa = <<>> THEN w
                        ELSE FanW(LoopW(w, "pa", f.cfg.pa[1]), Actives(f), f.cfg.pa[2], "announce", -1, <<>>)
       [] c.t = "pad" -> IF ~cur \/ f.conn # "active" \/ f.cfg.pad = <<>> THEN w
                         ELSE FanW(LoopW(w, "pad", f.cfg.pad[1]), DownsElsewhere(f), f.cfg.pad[2], "announce", -1, <<>>)
       [] OTHER -> IF ~cur \/ f.conn # "active" \/ f.cfg.pg = <<>> THEN w
                   ELSE LET x == LoopW(w, "pg", f.cfg.pg[1])
                        IN IF DOMAIN f.ub = {} /\ f.cb = <<>> THEN x
                           ELSE FanW(x, Actives(f), f.cfg.pg[2], "gossip", -1, <<>>)

(***************************************************************************)
(* Datagrams                                                               *)
(***************************************************************************)
RECURSIVE ItemsW(_, _, _)
ItemsW(w, items, from) ==  \* sets ret: no item was refused with an error
  IF items = <<>> THEN [w EXCEPT !.ret = TRUE]
  ELSE IF Len(w.rx) + 1 \notin DOMAIN w.rxs THEN [w EXCEPT !.drift = "the handler did not see an item"]
  ELSE LET k == w.rxs[Len(w.rx) + 1]
           x == [w EXCEPT !.rx = Append(@, [from |-> from, data |-> Head(items), res |-> k])]
       IN IF k = 2 THEN [x EXCEPT !.ret = FALSE]
          ELSE ItemsW(IF k = 1 THEN AddItem(x, Head(items)) ELSE x, Tail(items), from)

ReactW(w, c) ==
  LET f == w.f
      p == f.pr
      mine == [w EXCEPT !.err = "IndirectForOurselves"]
  IN CASE c.kind = "ping" -> SendW(w, c.src, "ack", c.pn, <<>>)
       [] c.kind = "ack" ->
            IF c.pn = p.num /\ p.d # <<>> /\ <<p.d[1], p.d[2]>> = c.src THEN [w EXCEPT !.f.pr.ok = TRUE] ELSE w
       [] c.kind = "pingreq" -> IF c.tgt = f.me THEN mine ELSE SendW(w, c.tgt, "indping", c.pn, c.src)
       [] c.kind = "indping" -> IF c.tgt = f.me THEN mine ELSE SendW(w, c.src, "indack", c.pn, c.tgt)
       [] c.kind = "indack" -> IF c.tgt = f.me THEN mine ELSE SendW(w, c.tgt, "fwdack", c.pn, c.src)
       [] c.kind = "fwdack" ->
            IF c.tgt = f.me THEN mine
            ELSE IF c.pn = p.num /\ \E i \in DOMAIN p.ind : p.ind[i] = c.src
            THEN LET i == CHOOSE i \in DOMAIN p.ind : p.ind[i] = c.src
                 IN [w EXCEPT !.f.pr.cnt = @ + 1, !.f.pr.ind = RemoveAt(@, i)]
            ELSE w
       [] c.kind = "announce" -> SendW(w, c.src, "feed", -1, <<>>)
       [] c.kind = "turnundead" -> SelfW(w, 0, Down)
       [] OTHER -> w

DataW(w, c) ==
  LET f == w.f
      E(x) == [w EXCEPT !.err = x]
  IN IF c.len > f.cfg.mps THEN E("DataTooBig")
     ELSE IF ~c.hdr THEN E("Decode")
     ELSE IF c.src[1] = f.me[1] THEN E("DataFromOurselves")
     ELSE IF c.after = 1 \/ (c.kind = "announce" /\ c.after > 0) THEN E("MalformedPacket")
     ELSE IF ~(c.dst = f.me \/ (c.kind = "announce" /\ c.dst[1] = f.me[1])) THEN w
     ELSE IF ~c.mok THEN E("Decode")
     ELSE
     LET w1 == LearnW(w, <<c.src[1], c.src[2], c.inc, Alive>>, TRUE)
     IN IF ~w1.ret THEN
          LET was == f.conn = "defunct"
              w2 == IF c.kind = "turnundead" THEN SelfW(w1, 0, Down) ELSE w1
              reply == f.cfg.nd /\ (c.kind # "turnundead" \/ ~was \/ w2.f.conn # "defunct")
          IN IF reply THEN SendW(w2, c.src, "turnundead", -1, <<>>) ELSE w2
        ELSE
          LET w2 == ApplyW(w1, [i \in DOMAIN c.ups |-> SubSeq(c.ups[i], 1, 4)], TRUE)
          IN IF ~Live(w2) THEN w2 ELSE
             LET w3 == ItemsW(w2, c.items, c.src)
                 cres == IF ~w3.ret THEN "CustomBroadcast" ELSE IF ~c.tok THEN "MalformedPacket" ELSE ""
                 w4 == IF w3.drift # "" \/ w3.f.conn # "active" THEN w3 ELSE ReactW(w3, c)
             IN IF w4.err # "" THEN w4 ELSE [w4 EXCEPT !.err = cres]

(***************************************************************************)
(* The API                                                                 *)
(***************************************************************************)
PeriodicOn(p) == p # <<>>
CallW(w, c) ==
  LET f == w.f
      E(x) == [w EXCEPT !.err = x]
  IN CASE c.op = "data" -> DataW(w, c)
       [] c.op = "timer" -> FireW(w, c)
       [] c.op = "announce" -> SendW(w, c.id, "announce", -1, <<>>)
       [] c.op = "gossip" -> GossipW(w)
       [] c.op = "broadcast" ->
            IF f.cb = <<>> THEN w
            ELSE FanW(w, {a \in Actives(f) : MayGet(f.h.elig, a)}, f.cfg.fan, "broadcast", -1, <<>>)
       [] c.op = "leave" -> DefunctW(GossipW(EnqW(w, <<f.me[1], f.me[2], 0, Down>>)))
       [] c.op = "changeid" -> IF c.id = f.me THEN E("SameIdentity") ELSE ChangeIdW(w, c.id, c.ren)
       [] c.op = "reuse" -> IF f.conn # "defunct" THEN E("NotUndead") ELSE ResetW(w)
       [] c.op = "apply" -> ApplyW(w, c.ups, c.bc)
       [] c.op = "addb" ->
            IF c.len = 0 THEN E("MalformedPacket")
            ELSE IF c.len > f.cfg.mps \/ c.len > 65535 THEN E("DataTooBig")
            ELSE LET x == ItemsW(w, <<c.data>>, <<>>)
                 IN IF x.drift # "" THEN x
                    ELSE IF ~x.ret THEN [x EXCEPT !.err = "CustomBroadcast"]
                    ELSE [x EXCEPT !.err = IF x.rx[1].res = 1 THEN "OkTrue" ELSE "OkFalse"]
       [] OTHER ->
            IF \/ c.cfg.pp # f.cfg.pp \/ c.cfg.rtt # f.cfg.rtt
               \/ ~PeriodicOn(f.cfg.pa) /\ PeriodicOn(c.cfg.pa)
               \/ ~PeriodicOn(f.cfg.pad) /\ PeriodicOn(c.cfg.pad)
               \/ ~PeriodicOn(f.cfg.pg) /\ PeriodicOn(c.cfg.pg)
            THEN E("InvalidConfig") ELSE [w EXCEPT !.f.cfg = c.cfg]

ResultOf(w) == IF w.err = "" THEN "Ok" ELSE w.err
=============================================================================
