------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* Exhaustive generation of tests from the reference machine Foca.tla.     *)
(* From a number of prepared situations TLC visits every state that a      *)
(* small alphabet of calls leads to; for each distinct state every call    *)
(* of the alphabet (or an evenly spread RATE-th of them) is printed with   *)
(* a shortest sequence of calls leading to the state.  The sequences are   *)
(* replayed into the real code (driver "replay") and what it does is       *)
(* judged by the monitors and by Conform.tla.                              *)
(***************************************************************************)
EXTENDS Foca, Json, IOUtils

CONSTANTS DEPTH,  \* calls after the prepared situation
          RATE    \* one in RATE of the last calls is printed
Env(k, default) == IF k \in DOMAIN IOEnv THEN atoi(IOEnv[k]) ELSE default
SEED == Env("SEED", 1)
PART == Env("PART", 0)      \* the situations are dealt out to PARTS runs
PARTS == Env("PARTS", 1)

VARIABLES sc, f, tm, path, d, hash

Me == <<0, 1>>
A0 == <<1, 0>>
A1 == <<1, 1>>
B0 == <<2, 0>>

Cfg(nd, per) ==
  [pp |-> 1000, rtt |-> 300, fan |-> 3, mtx |-> 3, s2d |-> 3000, rmd |-> 30000, mps |-> 1400, nd |-> nd,
   pa |-> IF per THEN <<1500, 2>> ELSE <<>>, pad |-> IF per THEN <<1700, 2>> ELSE <<>>, pg |-> IF per THEN <<300, 2>> ELSE <<>>]
Hdr(nd, ren, per) ==
  [cfg |-> Cfg(nd, per), me |-> Me, ren |-> ren, codec |-> 0, var |-> 0, inval |-> 1, elig |-> 0, accept |-> 1, fseed |-> "7"]
Hdrs == <<Hdr(TRUE, 1, TRUE), Hdr(TRUE, 0, FALSE), Hdr(FALSE, 1, FALSE)>>

(***************************************************************************)
(* The alphabet                                                            *)
(***************************************************************************)
Data(kind, src, inc, dst, pn, tgt, ups0, items, good) ==
  LET pig == Piggybacks(kind)
      ups == IF pig THEN [i \in DOMAIN ups0 |-> Append(ups0[i], 10)] ELSE <<>>
      after == (IF pig THEN 2 ELSE 0) + 10 * Len(ups) + FoldSeq(LAMBDA x, s : s + 2 + Len(x), 0, items)
  IN [op |-> "data", len |-> 20 + after, hdr |-> TRUE, src |-> src, inc |-> inc, dst |-> dst, kind |-> kind, pn |-> pn,
      tgt |-> tgt, hl |-> 20, after |-> after, cnt |-> IF pig THEN Len(ups) ELSE -1, ups |-> ups, mok |-> TRUE,
      items |-> items, tok |-> TRUE, good |-> good]

R(id, inc, st) == <<id[1], id[2], inc, st>>
Others == {R(A0, i, s) : i \in {0, 1}, s \in {0, 1, 2}} \cup {R(A1, 0, s) : s \in {0, 1, 2}} \cup {R(B0, i, s) : i \in {0, 1}, s \in {0, 1, 2}}
Own(g) == {R(g.me, i, s) : i \in {0, 1, MaxInc}, s \in {1, 2}} \cup {R(g.me, 0, 0), R(<<0, g.me[2] + 1>>, 0, 0), R(<<0, 0>>, 1, 1)}
Combos(g) ==
  {<<R(A0, 0, 2), R(A1, 0, 0)>>, <<R(A1, 0, 0), R(A0, 1, 1)>>, <<R(g.me, 0, 1), R(g.me, 0, 2)>>, <<R(A0, 0, 2), R(B0, 0, 2)>>,
   <<R(g.me, 0, 2), R(A0, 1, 0)>>, <<R(A0, 0, 0), R(A0, 0, 1), R(A0, 0, 2)>>, <<R(B0, 1, 0), R(g.me, 1, 1)>>}
Batches(g) == {<<u>> : u \in Others \cup Own(g)} \cup Combos(g)

Plain(g) ==
  {Data(k, s, i, g.me, IF k = "ping" THEN 7 ELSE -1, <<>>, <<>>, <<>>, FALSE) :
     k \in {"ping", "announce", "turnundead", "gossip"}, s \in {A0, A1, B0}, i \in {0, 1}}
Answers(g) ==
  {Data("ack", IF g.pr.d = <<>> THEN A0 ELSE <<g.pr.d[1], g.pr.d[2]>>, i, g.me, g.pr.num, <<>>, <<>>, <<>>, TRUE) : i \in {0, 1}}
  \cup {Data("ack", A0, 0, g.me, (g.pr.num + 255) % 256, <<>>, <<>>, <<>>, FALSE),
        Data("ack", B0, 0, g.me, g.pr.num, <<>>, <<>>, <<>>, FALSE),
        Data("fwdack", B0, 0, g.me, g.pr.num, IF g.pr.d = <<>> THEN A0 ELSE <<g.pr.d[1], g.pr.d[2]>>, <<>>, <<>>, TRUE),
        Data("fwdack", A0, 0, g.me, g.pr.num, B0, <<>>, <<>>, FALSE),
        Data("pingreq", A0, 0, g.me, 9, B0, <<>>, <<>>, FALSE), Data("pingreq", A0, 0, g.me, 9, g.me, <<R(B0, 1, 1)>>, <<>>, FALSE),
        Data("indping", A0, 0, g.me, 9, B0, <<>>, <<>>, FALSE), Data("indack", A0, 0, g.me, 9, B0, <<>>, <<>>, FALSE),
        Data("gossip", A0, 0, <<0, g.me[2] + 1>>, -1, <<>>, <<R(B0, 0, 2)>>, <<>>, FALSE),
        Data("announce", A0, 0, <<0, g.me[2] + 1>>, -1, <<>>, <<>>, <<>>, FALSE),
        Data("announce", A0, 0, B0, -1, <<>>, <<>>, <<>>, FALSE),
        Data("gossip", <<0, 0>>, 0, g.me, -1, <<>>, <<R(A0, 0, 2)>>, <<>>, FALSE),
        Data("broadcast", A0, 0, g.me, -1, <<>>, <<>>, <<<<1, 3, 5>>, <<2, 1>>>>, FALSE),
        Data("gossip", B0, 0, g.me, -1, <<>>, <<R(A0, 0, 1)>>, <<<<1, 2>>>>, FALSE),
        Data("ping", B0, 1, g.me, 3, <<>>, <<R(A0, 0, 2)>>, <<>>, FALSE),
        Data("feed", B0, 0, g.me, -1, <<>>, <<R(A0, 0, 0), R(<<3, 0>>, 0, 0)>>, <<>>, FALSE)}
Api(g) ==
  {[op |-> "leave"], [op |-> "reuse"], [op |-> "gossip"], [op |-> "broadcast"], [op |-> "announce", id |-> A0],
   [op |-> "changeid", id |-> <<0, g.me[2] + 1>>, ren |-> g.ren], [op |-> "changeid", id |-> g.me, ren |-> g.ren],
   [op |-> "changeid", id |-> <<0, 0>>, ren |-> g.ren],
   [op |-> "addb", data |-> <<1, 2, 3>>, len |-> 3], [op |-> "addb", data |-> <<2>>, len |-> 1], [op |-> "addb", data |-> <<>>, len |-> 0],
   [op |-> "setcfg", cfg |-> [g.cfg EXCEPT !.pa = <<>>, !.pad = <<>>, !.pg = <<>>, !.mtx = 1, !.nd = ~@]],
   [op |-> "setcfg", cfg |-> [g.cfg EXCEPT !.pp = @ + 1, !.fan = 1]],
   [op |-> "apply", ups |-> <<R(A0, 1, 1)>>, bc |-> FALSE], [op |-> "apply", ups |-> <<R(g.me, 0, 2)>>, bc |-> FALSE],
   [op |-> "apply", ups |-> <<R(A0, 0, 2), R(B0, 0, 2)>>, bc |-> FALSE]}
Fire(x) == [op |-> "timer", t |-> x.t, tok |-> x.tok, id |-> x.id, inc |-> x.inc, n |-> 0, dup |-> FALSE]

Calls(g, T) ==
  SetToSeq(Plain(g)) \o SetToSeq(Answers(g)) \o SetToSeq(Api(g)) \o SetToSeq({Fire(x) : x \in T})
  \o SetToSeq({Data("gossip", B0, 0, g.me, -1, <<>>, b, <<>>, FALSE) : b \in Batches(g)})

(***************************************************************************)
(* Running calls                                                           *)
(***************************************************************************)
CallOn(g, c) == CallW(Begin(g, FALSE, <<<<1, 2, 3>>>>, [i \in 1..4 |-> 1]), c)
TimersOf(w) == {[t |-> o.t, id |-> o.id, inc |-> o.inc, tok |-> o.tok] : o \in {o \in Rng(w.out) : o.o = "timer"}}
Left(T, c) == IF c.op = "timer" THEN {x \in T : ~(x.t = c.t /\ x.id = c.id /\ x.inc = c.inc /\ x.tok = c.tok)} ELSE T

(* prepared situations, by name of what is done *)
FireKind(T, t) == LET S == {x \in T : x.t = t} IN IF S = {} THEN <<>> ELSE <<Fire(CHOOSE x \in S : \A y \in S : x.tok >= y.tok)>>
StepOf(s, x) ==   \* s = [g, T, p]; the call that x stands for
  CASE x[1] = "apply" -> <<[op |-> "apply", ups |-> x[2], bc |-> TRUE]>>
    [] x[1] = "fire" -> FireKind(s.T, x[2])
    [] x[1] = "ack" -> IF s.g.pr.d = <<>> THEN <<>>
                       ELSE <<Data("ack", <<s.g.pr.d[1], s.g.pr.d[2]>>, 0, s.g.me, s.g.pr.num, <<>>, <<>>, <<>>, TRUE)>>
    [] x[1] = "told" -> <<Data("gossip", B0, 0, s.g.me, -1, <<>>, <<R(s.g.me, x[2], x[3])>>, <<>>, FALSE)>>
    [] OTHER -> <<x[2]>>
RECURSIVE Prepare(_, _)
Prepare(s, xs) ==
  IF xs = <<>> THEN s
  ELSE LET cs == StepOf(s, Head(xs))
       IN IF cs = <<>> THEN Prepare(s, Tail(xs))
          ELSE LET w == CallOn(s.g, cs[1])
               IN Prepare([g |-> w.f, T |-> Left(s.T, cs[1]) \cup TimersOf(w), p |-> Append(s.p, cs[1])], Tail(xs))
Know == <<"apply", <<R(A0, 0, 0)>>>>
KnowB == <<"apply", <<R(B0, 0, 0)>>>>
Probe == <<"fire", "probe">>
Ind == <<"fire", "ind">>
S2d == <<"fire", "s2d">>
Rm == <<"fire", "rm">>
Situations == <<
  <<>>,
  <<Know, KnowB>>,
  <<Know, Probe, KnowB>>,
  <<Know, Probe, KnowB, Ind>>,
  <<Know, Probe, <<"ack">>, Ind, KnowB>>,
  <<Know, Probe, Ind, Probe, KnowB>>,
  <<Know, Probe, Ind, Probe, KnowB, S2d>>,
  <<Know, Probe, Ind, Probe, S2d>>,
  <<Know, Probe, Ind, Probe, KnowB, S2d, Rm>>,
  <<Know, KnowB, <<"call", [op |-> "leave"]>>>>,
  <<Know, KnowB, <<"told", 0, 2>>>>,
  <<Know, KnowB, <<"told", 0, 1>>>>,
  <<Know, KnowB, <<"told", MaxInc - 1, 1>>>>,
  <<Know, Probe, KnowB, <<"apply", <<R(A1, 0, 0)>>>>, Ind>>,
  <<Know, Probe, Ind, Probe, KnowB, <<"apply", <<R(A0, 1, 0)>>>>>>,
  <<Know, KnowB, <<"call", [op |-> "addb", data |-> <<1, 1>>, len |-> 2]>>, <<"call", [op |-> "addb", data |-> <<2, 2, 2>>, len |-> 3]>>>>,
  <<Know, <<"apply", <<R(A0, 0, 2)>>>>, KnowB>>,
  <<Know, KnowB, <<"call", [op |-> "changeid", id |-> <<0, 2>>, ren |-> 1]>>, Probe>>,
  <<Know, KnowB, <<"call", [op |-> "leave"]>>, <<"call", [op |-> "reuse"]>>>> >>

Init ==
  \E a \in DOMAIN Situations, b \in DOMAIN Hdrs :
    /\ (3 * a + b) % PARTS = PART
    /\ LET s == Prepare([g |-> FInit(Hdrs[b]), T |-> {}, p |-> <<>>], Situations[a])
       IN /\ sc = b /\ f = s.g /\ tm = s.T /\ path = s.p /\ d = 0 /\ hash = a * 31 + b * 7 + (SEED % 1000003) * 13

(* only what the replay needs *)
Slim(c) ==
  CASE c.op = "data" -> [op |-> "data", src |-> c.src, inc |-> c.inc, dst |-> c.dst, kind |-> c.kind, pn |-> c.pn, tgt |-> c.tgt,
                         ups |-> [i \in DOMAIN c.ups |-> SubSeq(c.ups[i], 1, 4)], items |-> c.items, good |-> c.good]
    [] c.op = "timer" -> [op |-> "timer", t |-> c.t, id |-> c.id, inc |-> c.inc, tok |-> c.tok]
    [] OTHER -> c
Emit(p) == PrintT("BEH " \o ToJson([h |-> Hdrs[sc], p |-> [i \in DOMAIN p |-> Slim(p[i])]]))

Next ==
  /\ d < DEPTH
  /\ \E cs \in {Calls(f, tm)} : \E i \in DOMAIN cs :
       /\ sc' = sc /\ d' = d + 1 /\ hash' = (hash * 131 + i * 17) % 1000003
       /\ (d' = DEPTH => hash' % RATE = 0)
       /\ path' = Append(path, cs[i])
       /\ IF d' = DEPTH
          THEN f' = f /\ tm' = tm /\ Emit(path')
          ELSE \E w \in {CallOn(f, cs[i])} :
                 f' = w.f /\ tm' = Left(tm, cs[i]) \cup TimersOf(w)

(* states that differ in how they were reached are the same *)
Seen == <<sc, f, tm, d, IF d = DEPTH THEN path ELSE <<>>>>
Depth == d <= DEPTH
=============================================================================
