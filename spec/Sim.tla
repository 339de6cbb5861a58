-------------------------------- MODULE Sim --------------------------------
(***************************************************************************)
(* Random behaviours of the reference machine Foca.tla with the monitors   *)
(* of the properties attached: the specification satisfies what is         *)
(* demanded of the code.  Every behaviour is printed as the sequence of    *)
(* its stimuli, to be replayed into the real code (driver "replay").       *)
(***************************************************************************)
EXTENDS Foca, TLCExt, Json, IOUtils

M01 == INSTANCE P_C01
M07 == INSTANCE P_C07
M08 == INSTANCE P_C08
M09 == INSTANCE P_C09
M10 == INSTANCE P_C10
M11 == INSTANCE P_C11
M12 == INSTANCE P_C12
M13 == INSTANCE P_C13
M15 == INSTANCE P_C15
M16 == INSTANCE P_C16
M19 == INSTANCE P_C19

CONSTANTS DEPTH, PRINT
VARIABLES h, f, tm, now, k, ord, ms, bad, path

(* A stream of draws.  (The parameter keeps TLC from evaluating it only once.) *)
Draw(x) == TLCEval([i \in 1..(24 + 0 * x) |-> RandomElement(0..9999)])

OptOf(x, lo, n) == IF (x % 2) = 0 THEN <<>> ELSE <<lo + 100 * ((x % 17)), 1 + ((x \div 17) % n)>>
CfgOf(d) ==
  [pp |-> 1000, rtt |-> <<100, 300, 900>>[1 + (d[1] % 3)], fan |-> 1 + (d[2] % 4), mtx |-> <<1, 2, 3, 10>>[1 + (d[3] % 4)],
   s2d |-> <<500, 1500, 3000, 7000>>[1 + (d[4] % 4)], rmd |-> <<2000, 8000, 30000>>[1 + (d[5] % 3)], mps |-> 4000,
   nd |-> (d[6] % 2) = 0, pa |-> OptOf(d[7], 500, 3), pad |-> OptOf(d[8], 500, 3), pg |-> OptOf(d[9], 100, 3)]
HdrOf(d) ==
  [cfg |-> CfgOf(d), me |-> <<0, 1>>, ren |-> <<0, 1, 1, 4>>[1 + (d[10] % 4)], codec |-> 0, var |-> 0,
   inval |-> (d[11] % 6), elig |-> <<0, 0, 1, 3>>[1 + (d[12] % 4)], accept |-> 1, fseed |-> "0"]

IncOf(x, near) == IF (x % 40) = 39 THEN MaxInc ELSE IF (x % 40) = 38 THEN MaxInc - 1
                  ELSE IF (x % 3) = 0 THEN Min2(MaxInc, near + (x % 2)) ELSE ((x \div 7) % 3)
NearOf(g, a) == IF Has(g.v, a) THEN g.v[a][2] ELSE 0
UpdOf(g, x, y) ==  \* about somebody else
  LET a == IF (x % 12) = 0 THEN g.me[1] ELSE 1 + ((x \div 12) % 3)
      q == ((x \div 40) % 3)
      ge == IF a = g.me[1] /\ q = g.me[2] THEN q + 1 ELSE q
  IN <<a, ge, IncOf(y, NearOf(g, a)), <<0, 0, 1, 1, 2>>[1 + ((y \div 3) % 5)]>>
SelfUpd(g, x) == <<g.me[1], g.me[2], IncOf(x, g.inc), <<0, 1, 1, 1, 2>>[1 + ((x \div 11) % 5)]>>
UpsOf(g, d, i) ==
  LET n == (d[i] % 4)
      base == [j \in 1..n |-> UpdOf(g, d[i + j], d[((i + j + 5) % 20) + 1])]
  IN IF (d[i] % 7) = 0 THEN base \o <<SelfUpd(g, d[i + 4])>> ELSE base
ItemOf(x) == [j \in 1..(1 + (x % 4)) |-> (x \div (j + 2)) % (IF j = 1 THEN 3 ELSE 4)]

Kinds == <<"ping", "ping", "ack", "ack", "pingreq", "indping", "indack", "fwdack", "announce", "feed", "gossip", "gossip",
           "broadcast", "turnundead">>
Datagram(kind, src, inc, dst, pn, tgt, ups0, items) ==
  LET pig == Piggybacks(kind)
      ups == IF pig THEN [i \in DOMAIN ups0 |-> Append(ups0[i], 10)] ELSE <<>>
      its == IF CarriesItems(kind) THEN items ELSE <<>>
      after == (IF pig THEN 2 ELSE 0) + 10 * Len(ups) + FoldSeq(LAMBDA x, s : s + 2 + Len(x), 0, its)
  IN [op |-> "data", len |-> 20 + after, hdr |-> TRUE, src |-> src, inc |-> inc, dst |-> dst, kind |-> kind, pn |-> pn,
      tgt |-> tgt, hl |-> 20, after |-> after, cnt |-> IF pig THEN Len(ups) ELSE -1, ups |-> ups, mok |-> TRUE,
      items |-> its, tok |-> TRUE]
DataOf(g, d) ==
  LET pr == g.pr
      kind == Kinds[1 + (d[2] % 14)]
      good == (d[3] % 3) # 0 /\ pr.d # <<>>
      a0 == 1 + (d[4] % 3)
      gen == IF Has(g.v, a0) /\ (d[5] % 5) # 0 THEN g.v[a0][1] ELSE (d[6] % 3)
      src == IF good /\ kind = "ack" THEN <<pr.d[1], pr.d[2]>>
             ELSE IF good /\ kind = "fwdack" /\ pr.ind # <<>> THEN pr.ind[1 + (d[4] % Len(pr.ind))]
             ELSE <<a0, gen>>
      inc == IF Has(g.v, src[1]) /\ (d[7] % 3) # 0 THEN g.v[src[1]][2] ELSE IncOf(d[7], NearOf(g, src[1]))
      pn == IF ~(kind \in {"ping", "ack", "pingreq", "indping", "indack", "fwdack"}) THEN -1
            ELSE IF kind \in {"ack", "fwdack"} THEN IF (d[8] % 5) = 0 THEN ((pr.num + 255) % 256) ELSE pr.num
            ELSE (d[8] % 256)
      tgt == IF ~(kind \in {"pingreq", "indping", "indack", "fwdack"}) THEN <<>>
             ELSE IF (d[9] % 9) = 0 THEN g.me
             ELSE IF kind = "fwdack" /\ good THEN <<pr.d[1], pr.d[2]>>
             ELSE <<1 + (d[9] % 3), (d[10] % 3)>>
      dst == IF (d[11] % 12) = 0 THEN <<0, (d[12] % 4)>> ELSE g.me
      ups == IF kind = "turnundead" \/ kind = "announce" THEN <<>> ELSE UpsOf(g, d, 12)
      items == IF kind = "turnundead" \/ (d[18] % 4) # 0 THEN <<>> ELSE [i \in 1..(1 + (d[19] % 2)) |-> ItemOf(d[20 + i])]
  IN Datagram(kind, src, inc, dst, pn, tgt, ups, items)

SeqNo(t) == CASE t = "ind" -> 0 [] t = "probe" -> 1 [] t = "s2d" -> 2 [] t = "pa" -> 3 [] t = "pg" -> 4 [] t = "rm" -> 5 [] OTHER -> 6
Before(x, y) == x.dl < y.dl \/ (x.dl = y.dl /\ (SeqNo(x.t) < SeqNo(y.t) \/ (SeqNo(x.t) = SeqNo(y.t) /\ x.n < y.n)))
Earliest(T) == CHOOSE x \in T : \A y \in T : x = y \/ Before(x, y)
FireOf(x) == [op |-> "timer", t |-> x.t, tok |-> x.tok, id |-> x.id, inc |-> x.inc, n |-> x.n, dup |-> FALSE, dl |-> x.dl]

OpenT == {tm[i] : i \in {j \in DOMAIN tm : tm[j].open}}
CallOf(g, d) ==
  LET r == (d[1] % 100) IN
  IF r < 42 /\ OpenT # {} THEN
    FireOf(IF ord \/ (d[2] % 6) # 0 THEN Earliest(OpenT)
           ELSE LET s == SetToSeq(OpenT) IN s[1 + (d[3] % Len(s))])
  ELSE IF r < 76 THEN DataOf(g, d)
  ELSE IF r < 84 THEN [op |-> "apply", ups |-> UpsOf(g, d, 3), bc |-> (d[2] % 3) # 0]
  ELSE IF r < 85 THEN [op |-> "leave"]
  ELSE IF r < 87 THEN [op |-> "changeid", id |-> <<0, (d[2] % 6)>>, ren |-> <<0, 1, 4>>[1 + (d[3] % 3)]]
  ELSE IF r < 89 THEN [op |-> "reuse"]
  ELSE IF r < 91 THEN [op |-> "gossip"]
  ELSE IF r < 93 THEN [op |-> "announce", id |-> <<1 + (d[2] % 3), (d[3] % 3)>>]
  ELSE IF r < 95 THEN [op |-> "broadcast"]
  ELSE IF r < 98 THEN LET it == ItemOf(d[2]) IN [op |-> "addb", data |-> it, len |-> Len(it)]
  ELSE [op |-> "setcfg", cfg |-> [CfgOf(d) EXCEPT !.rtt = g.cfg.rtt,
          !.pa = IF g.cfg.pa = <<>> /\ (d[13] % 4) # 0 THEN <<>> ELSE @, !.pad = IF g.cfg.pad = <<>> THEN <<>> ELSE @,
          !.pg = IF g.cfg.pg = <<>> THEN <<>> ELSE @]]

(* priority lists of addresses, one per choice *)
Perms == <<<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>>>
OrcOf(d) == [i \in 1..4 |-> Perms[1 + (d[20 + i] % 6)]]

(***************************************************************************)
(* The event as the harness records it                                     *)
(***************************************************************************)
MemSeq(v) == SetToSeq({<<a, v[a][1], v[a][2], v[a][3]>> : a \in DOMAIN v})
RECURSIVE Dress(_, _, _)
Dress(out, n, acc) ==
  IF out = <<>> THEN acc
  ELSE LET o == Head(out) IN
    IF o.o = "send" THEN
      LET ups == SetToSeq(o.ups)
          after == (IF o.cnt = -1 THEN 0 ELSE 2) + 10 * Len(ups) + FoldSeq(LAMBDA x, s : s + 2 + Len(x), 0, o.items)
      IN Dress(Tail(out), n, Append(acc,
          [o |-> "send", to |-> o.to, len |-> 20 + after, hdr |-> TRUE, src |-> o.src, inc |-> o.inc, dst |-> o.dst,
           kind |-> o.kind, pn |-> o.pn, tgt |-> o.tgt, hl |-> 20, after |-> after, cnt |-> o.cnt,
           ups |-> [i \in DOMAIN ups |-> Append(ups[i], 10)], mok |-> TRUE, items |-> o.items, tok |-> TRUE]))
    ELSE IF o.o = "timer" THEN
      Dress(Tail(out), n + 1, Append(acc, [o |-> "timer", t |-> o.t, tok |-> o.tok, id |-> o.id, inc |-> o.inc,
                                            after |-> o.after, n |-> n + 1]))
    ELSE Dress(Tail(out), n, Append(acc, o))
EventOf(c, w, t) ==
  LET mem == MemSeq(w.f.v)
  IN [c |-> c, res |-> ResultOf(w), now |-> t, out |-> Dress(w.out, Len(tm), <<>>), rx |-> w.rx, me |-> w.f.me,
      mem |-> mem, act |-> SelectSeq(mem, LAMBDA m : m[4] # Down),
      num |-> Cardinality(Actives(w.f)), ub |-> Cardinality(DOMAIN w.f.ub), cb |-> Len(w.f.cb)]

NewTimers(ev) ==
  LET ts == Timers(ev)
  IN [i \in DOMAIN ts |-> [t |-> ts[i].t, tok |-> ts[i].tok, id |-> ts[i].id, inc |-> ts[i].inc, n |-> ts[i].n,
                           dl |-> ev.now + ts[i].after, open |-> TRUE]]

Fresh(hdr) ==
  [c01 |-> M01!MInit(hdr), c07 |-> M07!MInit(hdr), c08 |-> M08!MInit(hdr), c09 |-> M09!MInit(hdr), c10 |-> M10!MInit(hdr),
   c11 |-> M11!MInit(hdr), c12 |-> M12!MInit(hdr), c13 |-> M13!MInit(hdr), c15 |-> M15!MInit(hdr), c16 |-> M16!MInit(hdr),
   c19 |-> M19!MInit(hdr)]
Nothing == [x \in {} |-> 0]
Init ==
  /\ h = Nothing /\ f = Nothing /\ ms = Nothing /\ ord = FALSE /\ tm = <<>> /\ now = 0 /\ k = 0 /\ bad = "" /\ path = <<>>
(* TLC computes the initial states once: the configuration is drawn by the first step *)
Start ==
  /\ k = 0 /\ k' = 1 /\ UNCHANGED <<tm, now, bad, path>>
  /\ \E k0 \in {k} : \E d \in {Draw(k0)} : \E hdr \in {HdrOf(d)} :
       /\ h' = hdr /\ ord' = ((d[20] % 2) = 0) /\ f' = FInit(hdr) /\ ms' = Fresh(hdr)

CallOn(c, d) == CallW(Begin(f, FALSE, OrcOf(d), [i \in 1..4 |-> 1]), c)
Monitors(ev) ==
  [c01 |-> M01!MStep(ms.c01, ev), c07 |-> M07!MStep(ms.c07, ev), c08 |-> M08!MStep(ms.c08, ev),
   c09 |-> M09!MStep(ms.c09, ev), c10 |-> M10!MStep(ms.c10, ev), c11 |-> M11!MStep(ms.c11, ev),
   c12 |-> IF ord THEN M12!MStep(ms.c12, ev) ELSE ms.c12,
   c13 |-> M13!MStep(ms.c13, ev), c15 |-> M15!MStep(ms.c15, ev), c16 |-> M16!MStep(ms.c16, ev),
   c19 |-> M19!MStep(ms.c19, ev)]
BadOf(n, w) ==
  LET b == SelectSeq(<<n.c01.bad, n.c07.bad, n.c08.bad, n.c09.bad, n.c10.bad, n.c11.bad, n.c12.bad,
                       n.c13.bad, n.c15.bad, n.c16.bad, n.c19.bad, w.drift>>, LAMBDA x : x # "")
  IN IF b = <<>> THEN "" ELSE b[1]
(* what happened in a behaviour *)
Seen(n) ==
  [updates |-> n.c01.n.ev, selfdeath |-> n.c08.n.selfdeath, rejoins |-> n.c08.n.rejoins, idle |-> n.c08.n.idle, renames |-> n.c09.n.renames,
   discarded |-> n.c09.n.discarded, bumps |-> n.c10.n.bumps, deaths |-> n.c10.n.deaths, fired |-> n.c11.n.fired,
   forgot |-> n.c11.n.forgot, failed |-> n.c12.n.failed, indirect |-> n.c12.n.indirect, relays |-> n.c12.n.relays,
   stale |-> n.c13.n.stale, epochs |-> n.c13.n.epochs, replaced |-> n.c15.n.replaced, spent |-> n.c15.n.spent,
   sent |-> n.c16.n.sent, invalidated |-> n.c16.n.invalidated, owndown |-> n.c19.n.owndown]
At(c, d) == IF c.op = "timer" THEN Max2(now, c.dl) ELSE now + (IF (d[24] % 3) = 0 THEN (d[23] % 200) ELSE 0)

(* TLC evaluates each bound expression once *)
Step ==
  /\ k > 0 /\ k <= DEPTH /\ bad = "" /\ k' = k + 1 /\ UNCHANGED <<h, ord>>
  /\ \E k0 \in {k} : \E d \in {Draw(k0)} : \E c \in {CallOf(f, d)} : \E w \in {CallOn(c, d)} : \E ev \in {EventOf(c, w, At(c, d))} :
       \E n \in {Monitors(ev)} :
         /\ f' = w.f /\ now' = ev.now /\ ms' = n
         /\ tm' = (IF c.op = "timer" THEN [tm EXCEPT ![c.n].open = FALSE] ELSE tm) \o NewTimers(ev)
         /\ bad' = BadOf(n, w)
         /\ path' = IF PRINT \/ bad' # "" THEN Append(path, ev) ELSE <<>>
         /\ k = DEPTH => PrintT("COV " \o ToJson(Seen(n)))

Next == Start \/ Step

Good == bad = ""
=============================================================================
