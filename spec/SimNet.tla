------------------------------- MODULE SimNet -------------------------------
(***************************************************************************)
(* Random runs of whole clusters on the specification: every instance is   *)
(* the machine of Foca.tla; a clock, latencies, timers on time (ties in    *)
(* the order of the kinds), injected faults.  Only the order in which a    *)
(* member probes is added to the machine: passes over the known members in *)
(* random order (RoundRobin.tla).  The monitor of the property WHICH, the  *)
(* one that judges clusters of real instances, judges the run.             *)
(***************************************************************************)
EXTENDS Net, TLCExt, Json, IOUtils
CONSTANTS WHICH, NMAX

M02 == INSTANCE P_C02
M03 == INSTANCE P_C03
M04 == INSTANCE P_C04
M05 == INSTANCE P_C05
MonInit(h) == CASE WHICH = "C02" -> M02!MInit(h) [] WHICH = "C03" -> M03!MInit(h)
                [] WHICH = "C04" -> M04!MInit(h) [] OTHER -> M05!MInit(h)
MonStep(m, e) == CASE WHICH = "C02" -> M02!MStep(m, e) [] WHICH = "C03" -> M03!MStep(m, e)
                   [] WHICH = "C04" -> M04!MStep(m, e) [] OTHER -> M05!MStep(m, e)

VARIABLES
  s,      \* the scenario, <<>> before it is drawn
  inst,   \* the instances
  q,      \* per instance: whom the current pass has yet to probe
  tm,     \* timers: [i, dl, t, tok, id, inc, n]
  net,    \* datagrams: [at, n, d]
  now, seq, evs, sent, end,
  flags,  \* formed, lost, over
  side,   \* <<>> or the side of every instance
  gone,   \* crashed
  left,   \* left
  acts,   \* what is still to happen: [at, ev, a, i, j] (one of at and ev is -1)
  ms, bad
vars == <<s, inst, q, tm, net, now, seq, evs, sent, end, flags, side, gone, left, acts, ms, bad>>

Rnd(n) == RandomElement(0..(n - 1))
Pct(p) == Rnd(100) < p
OneOf(S) == S[1 + Rnd(Len(S))]
Perms == {p \in [1..5 -> 0..4] : Cardinality({p[i] : i \in 1..5}) = 5}
AnyPerm(x) == RandomElement(IF x >= 0 THEN Perms ELSE {})

(***************************************************************************)
(* Scenarios, as in harness/src/cluster.rs                                 *)
(***************************************************************************)
OptP(p, S, m) == IF Pct(p) THEN <<OneOf(S), 1 + Rnd(m)>> ELSE <<>>
Base(n) ==
  LET pp == OneOf(<<1000, 1500>>)
      rtt == OneOf(<<pp \div 3, pp \div 2, pp \div 5, (pp * 9) \div 10>>)
      max == rtt \div 4 - 1
      hi == OneOf(<<1, max \div 2, max>>)
      lo == OneOf(<<0, 1, max \div 2>>)
  IN [n |-> n, lo |-> Min2(lo, hi), lat |-> hi, calls |-> 0, fits |-> TRUE, style |-> "", formed |-> 0, end |-> 0, tail |-> 0,
      drop |-> -1, acts |-> <<>>, ren |-> [i \in 1..n |-> Rnd(2)],
      cfg |-> [pp |-> pp, rtt |-> rtt, fan |-> 1 + Rnd(4), mtx |-> 1 + Rnd(10), s2d |-> 3 * pp, rmd |-> 1000000000, mps |-> 4000,
               nd |-> Pct(50), pa |-> OptP(40, <<2 * pp, 5000>>, 2), pad |-> <<>>, pg |-> OptP(40, <<200, 500>>, 3)]]
Act(at, ev, a, i, j) == [at |-> at, ev |-> ev, a |-> a, i |-> i, j |-> j]
RECURSIVE Joins(_, _, _, _, _, _)
Joins(order, k, n, pp, style, acc) ==  \* acc = <<acts, time>>
  IF k > n THEN acc
  ELSE LET t == acc[2]
           dt == CASE style = "spaced" -> 2 * k * pp + Rnd(pp) [] style = "any" -> Rnd(2 * pp) [] OTHER -> Rnd(pp \div 20)
           a == Act(t, -1, "join", order[k], order[1 + Rnd(k - 1)])
       IN Joins(order, k + 1, n, pp, style, <<Append(acc[1], a), t + dt>>)
Joined(b, style) ==
  LET order == SelectSeq(AnyPerm(b.n), LAMBDA x : x < b.n)
      j == Joins(order, 2, b.n, b.cfg.pp, style, <<<<>>, Rnd(50)>>)
  IN [b EXCEPT !.acts = j[1], !.formed = j[2], !.style = style]
Formed(b) == LET x == Joined(b, "spaced") IN [x EXCEPT !.formed = @ + (2 * b.n + 3) * b.cfg.pp]
Forever == 1000000000

Scn02(n) ==
  LET x == Joined(Base(n), OneOf(<<"spaced", "spaced", "spaced", "any", "burst">>))
      bound == IF x.style = "spaced" THEN 2 * n + 3 ELSE 6 * n + 12
  IN [x EXCEPT !.end = x.formed + (bound + 3) * x.cfg.pp]
Scn03(n) ==
  LET y == Formed(Base(n))
      pp == y.cfg.pp
      x == [y EXCEPT !.cfg.s2d = OneOf(<<pp \div 2, pp, 2 * pp, 3 * pp, 5 * pp>>), !.cfg.pad = OptP(20, <<2 * pp>>, 2)]
      order == SelectSeq(AnyPerm(n), LAMBDA z : z < n)
      k == IF Pct(50) THEN 1 ELSE 1 + Rnd(n - 1)
      win == 8 * n * n
      at == Rnd(win)
      st == Rnd(3)
      As == [m \in 1..k |->
              LET e == CASE st = 0 -> at [] st = 1 -> at + Rnd(30) [] OTHER -> Rnd(win)
              IN IF Pct(60) THEN <<Act(-1, e, "crash", order[m], 0)>>
                 ELSE <<Act(-1, e, "leave", order[m], 0)>>
                      \o (IF x.ren[order[m] + 1] # 0 THEN <<Act(-1, e + 1, "crash", order[m], 0)>> ELSE <<>>)]
  IN [x EXCEPT !.acts = @ \o FlattenSeq(As), !.tail = (2 * n + 1) * pp + x.cfg.s2d + 3 * pp, !.end = Forever,
               !.style = "faults"]
Scn04(n) ==
  LET y == Formed(Base(n))
      pp == y.cfg.pp
      late == y.cfg.rtt + 4 * y.lat >= pp
      x == [y EXCEPT !.cfg.s2d = IF late THEN 6 * pp ELSE OneOf(<<3 * pp, 4 * pp, 6 * pp>>),
                     !.cfg.mtx = IF late THEN 10 ELSE @, !.style = IF late THEN "late" ELSE "indirect",
                     !.cfg.pad = OptP(30, <<2 * pp>>, 2), !.drop = Rnd(5 * n * n + 6)]
  IN [x EXCEPT !.tail = (2 * n + 1) * pp + x.cfg.s2d + 3 * pp, !.end = Forever]
Scn05(n) ==
  LET z == Base(n)
      pp0 == z.cfg.pp
      b == [z EXCEPT !.cfg.rtt = Min2(@, pp0 \div 2), !.cfg.nd = TRUE, !.cfg.s2d = OneOf(<<pp0, 3 * pp0>>),
                     !.cfg.pad = <<OneOf(<<pp0, 2 * pp0, 5 * pp0>>), 1 + Rnd(3)>>, !.ren = [i \in 1..n |-> OneOf(<<1, 1, 1, 4>>)]]
      c == [b EXCEPT !.lat = Min2(@, b.cfg.rtt \div 4 - 1), !.lo = Min2(@, Min2(b.lat, b.cfg.rtt \div 4 - 1))]
      x == Formed(c)
      pp == x.cfg.pp
      pad == x.cfg.pad[1]
      t == x.formed + Rnd(4 * pp)
      false == Pct(25)
      i == Rnd(n)
      mask == 1 + Rnd(2^n - 2)
      heal == IF false THEN t ELSE t + (2 * n + 2) * pp + x.cfg.s2d + Rnd(3 * pad)
      as == IF false THEN <<Act(t, -1, "false", i, (i + 1 + Rnd(n - 1)) % n)>>
            ELSE <<Act(t, -1, "split", mask, 0), Act(heal, -1, "heal", 0, 0)>>
  IN [x EXCEPT !.acts = @ \o as, !.style = IF false THEN "false" ELSE "split",
               !.end = heal + (3 * n + 15) * pad + (2 * n + 2) * pp + x.cfg.s2d]
Draw(x) ==
  CASE WHICH = "C02" -> Scn02(2 + Rnd(NMAX - 1 + 0 * x)) [] WHICH = "C03" -> Scn03(2 + Rnd(NMAX - 1 + 0 * x))
    [] WHICH = "C04" -> Scn04(2 + Rnd(NMAX - 1 + 0 * x)) [] OTHER -> Scn05(3 + Rnd(NMAX - 2 + 0 * x))

Nothing == [x \in {} |-> 0]
Init ==
  /\ s = Nothing /\ inst = Nothing /\ q = Nothing /\ tm = {} /\ net = {} /\ now = 0 /\ seq = 0 /\ evs = 0 /\ sent = 0 /\ end = 0
  /\ flags = {} /\ side = <<>> /\ gone = {} /\ left = {} /\ acts = <<>> /\ ms = Nothing /\ bad = ""
Start ==
  /\ DOMAIN s = {}
  /\ \E x0 \in {seq} : \E x \in {TLCEval(Draw(x0))} :
       /\ s' = x /\ end' = x.end /\ ms' = MonInit(x)
       /\ acts' = x.acts   \* joins in the order of time, then the others
       /\ inst' = [i \in 0..(x.n - 1) |-> FInit([me |-> <<i, 0>>, ren |-> x.ren[i + 1], cfg |-> x.cfg, inval |-> 0, elig |-> 0])]
       /\ q' = [i \in 0..(x.n - 1) |-> <<>>]
  /\ UNCHANGED <<tm, net, now, seq, evs, sent, flags, side, gone, left, bad>>

(***************************************************************************)
(* One call                                                                *)
(***************************************************************************)
SeqNo(t) == CASE t = "ind" -> 0 [] t = "probe" -> 1 [] t = "s2d" -> 2 [] t = "pa" -> 3 [] t = "pg" -> 4 [] t = "rm" -> 5 [] OTHER -> 6
Before(x, y) == x.dl < y.dl \/ (x.dl = y.dl /\ (SeqNo(x.t) < SeqNo(y.t) \/ (SeqNo(x.t) = SeqNo(y.t) /\ x.n < y.n)))
Earliest(T) == CHOOSE x \in T : \A y \in T : x = y \/ Before(x, y)
OfInst(i) == {x \in tm : x.i = i}

MemDiff(v, w) ==
  SetToSeq({<<a, w[a][1], w[a][2], w[a][3]>> : a \in {a \in DOMAIN w : ~Has(v, a) \/ v[a] # w[a]}}
           \cup {<<a, 0, 0, 3>> : a \in DOMAIN v \ DOMAIN w})
RECURSIVE AddNew(_, _)
AddNew(p, S) ==
  IF S = {} THEN p
  ELSE LET x == CHOOSE x \in S : TRUE
           k == Rnd(Len(p) + 2)   \* not in this pass, or anywhere in it
       IN AddNew(IF k > Len(p) THEN p ELSE InsertAt(p, k + 1, x), S \ {x})

(* the network after the datagrams of i: <<net, number sent, logged drops>> *)
RECURSIVE Post(_, _, _)
Post(i, ds, acc) ==
  IF ds = <<>> THEN acc
  ELSE LET d == Head(ds)
           j == d.to[1]
           cnt == "formed" \in flags
           drop == cnt /\ s.drop = acc.sent
           lost == drop \/ (side # <<>> /\ side[i + 1] # side[j + 1]) \/ j \notin DOMAIN inst
           e == [t |-> now', op |-> "drop", i |-> i, to |-> j, kind |-> d.kind]
       IN Post(i, Tail(ds),
               [net |-> IF lost THEN acc.net ELSE acc.net \cup {[at |-> now' + RandomElement(s.lo..s.lat), n |-> acc.seq + 1, d |-> d]},
                seq |-> acc.seq + 1, sent |-> acc.sent + B2N(cnt), log |-> IF drop THEN Append(acc.log, e) ELSE acc.log])
RECURSIVE NewT(_, _, _)
NewT(i, ts, acc) ==
  IF ts = <<>> THEN acc
  ELSE NewT(i, Tail(ts), [tm |-> acc.tm \cup {[i |-> i, dl |-> now' + Head(ts).after, t |-> Head(ts).t, tok |-> Head(ts).tok,
                                               id |-> Head(ts).id, inc |-> Head(ts).inc, n |-> acc.n + 1]}, n |-> acc.n + 1])

RECURSIVE Judge(_, _)
Judge(m, log) == IF log = <<>> \/ m.bad # "" THEN m ELSE Judge(MonStep(m, Head(log)), Tail(log))

(* what the call c of instance i does; tm0, net0: what is left of timers and datagrams *)
DoCall(i, c, op, kind, from, tm0, net0, logged) ==
  \E live \in {op = "timer" /\ c.t = "probe" /\ c.tok = inst[i].tok /\ inst[i].conn = "active"} :
  \E pass \in {LET A == Actives(inst[i])
                   p == SelectSeq(q[i], LAMBDA x : x \in A)
               IN IF ~live \/ p # <<>> THEN p ELSE SelectSeq(AnyPerm(i), LAMBDA x : x \in A)} :
  \E w \in {CallW(Begin(inst[i], FALSE, IF live THEN <<pass, AnyPerm(i), AnyPerm(i)>> ELSE <<AnyPerm(i), AnyPerm(i), AnyPerm(i), AnyPerm(i)>>, <<>>), c)} :
  \E np \in {Post(i, SentBy(w), [net |-> net0, seq |-> seq, sent |-> sent, log |-> <<>>])} :
  \E nt \in {NewT(i, TimersOf(w), [tm |-> tm0, n |-> np.seq])} :
  \E e \in {[t |-> now', op |-> op, i |-> i, kind |-> kind, from |-> from, res |-> ResultOf(w), was |-> inst[i].me, me |-> w.f.me,
             ch |-> MemDiff(inst[i].v, w.f.v), notes |-> NotesOf(w),
             to |-> [k \in DOMAIN SentBy(w) |-> <<SentBy(w)[k].to[1], SentBy(w)[k].to[2], SentBy(w)[k].kind>>],
             told |-> [k \in DOMAIN SelectSeq(SentBy(w), LAMBDA o : \E u \in o.ups : u[1] = inst[i].me[1] /\ u[2] = inst[i].me[2] /\ u[4] = Down)
                         |-> SelectSeq(SentBy(w), LAMBDA o : \E u \in o.ups : u[1] = inst[i].me[1] /\ u[2] = inst[i].me[2] /\ u[4] = Down)[k].to[1]]]} :
  \E show \in {op = "api" \/ kind = "turnundead" \/ (i \in left \cup (IF kind = "leave" THEN {i} ELSE {}) /\ (op = "data" \/ e.to # <<>>))
               \/ e.ch # <<>> \/ e.notes # <<>> \/ e.res # "Ok" \/ e.me # e.was} :
  \E m \in {Judge(ms, logged \o np.log \o (IF show THEN <<e>> ELSE <<>>))} :
    /\ inst' = [inst EXCEPT ![i] = w.f]
    /\ q' = [q EXCEPT ![i] = AddNew(IF live /\ pass # <<>> THEN Tail(pass) ELSE @, DOMAIN w.f.v \ DOMAIN inst[i].v)]
    /\ tm' = nt.tm /\ seq' = nt.n
    /\ net' = np.net
    /\ sent' = np.sent
    /\ ms' = m /\ bad' = IF w.drift # "" THEN w.drift ELSE m.bad
    /\ flags' = flags \cup (IF np.log # <<>> THEN {"lost"} ELSE {})

Log(log) == \E m \in {Judge(ms, log)} : ms' = m /\ bad' = m.bad

ApiJoin(a) == DoCall(a.i, [op |-> "announce", id |-> inst[a.j].me], "api", "announce", <<>>, tm, net, <<[t |-> now', op |-> "join", i |-> a.i, to |-> a.j]>>)
(* a planned act *)
Perform(a) ==
  /\ CASE a.a = "join" -> ApiJoin(a) /\ UNCHANGED <<side, gone, left>>
       [] a.a = "crash" ->
            /\ gone' = gone \cup {a.i} /\ tm' = {x \in tm : x.i # a.i}
            /\ IF a.i \in gone THEN UNCHANGED <<ms, bad>> ELSE Log(<<[t |-> now', op |-> "crash", i |-> a.i]>>)
            /\ UNCHANGED <<inst, q, net, seq, sent, flags, side, left>>
       [] a.a = "leave" ->
            IF a.i \in gone \cup left THEN UNCHANGED <<inst, q, tm, net, seq, sent, flags, side, gone, left, ms, bad>>
            ELSE /\ left' = left \cup {a.i}
                 /\ DoCall(a.i, [op |-> "leave"], "api", "leave", <<>>, tm, net, <<[t |-> now', op |-> "leaving", i |-> a.i]>>)
                 /\ UNCHANGED <<side, gone>>
       [] a.a = "split" ->
            \E sd \in {[k \in 1..s.n |-> (a.i \div (2^(k - 1))) % 2]} :
              /\ side' = sd
              /\ net' = {x \in net : sd[x.d.src[1] + 1] = sd[x.d.to[1] + 1]}
              /\ Log(<<[t |-> now', op |-> "split", side |-> sd]>>)
              /\ UNCHANGED <<inst, q, tm, seq, sent, flags, gone, left>>
       [] a.a = "heal" ->
            /\ side' = <<>> /\ Log(<<[t |-> now', op |-> "heal"]>>)
            /\ UNCHANGED <<inst, q, tm, net, seq, sent, flags, gone, left>>
       [] OTHER ->
            LET id == inst[a.j].me
                inc == IF Has(inst[a.i].v, a.j) THEN inst[a.i].v[a.j][2] ELSE 0
            IN /\ DoCall(a.i, [op |-> "apply", ups |-> <<<<id[1], id[2], inc, Down>>>>, bc |-> TRUE], "api", "apply", <<>>, tm, net,
                         <<[t |-> now', op |-> "false", i |-> a.i, who |-> a.j]>>)
               /\ UNCHANGED <<side, gone, left>>

Times == {x.dl : x \in tm} \cup {x.at : x \in net} \cup {acts[k].at : k \in {k \in DOMAIN acts : acts[k].at >= 0}}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
NoActs == ~\E k \in DOMAIN acts : TRUE
EndNow == IF s.tail > 0 /\ "formed" \in flags /\ NoActs /\ (s.drop = -1 \/ "lost" \in flags)
          THEN Min2(end, now + s.tail) ELSE end
Over == "over" \in flags

Finish ==
  /\ flags' = flags \cup {"over"} /\ now' = EndNow
  /\ Log(<<[t |-> now', op |-> "end",
            act |-> [k \in 1..s.n |-> SetToSeq({<<a, inst[k - 1].v[a][1]>> : a \in Actives(inst[k - 1])})]]>>)
  /\ PrintT("COV " \o ToJson(ms'.n))
  /\ UNCHANGED <<s, inst, q, tm, net, seq, evs, sent, end, side, gone, left, acts>>
Form ==
  /\ flags' = flags \cup {"formed"} /\ now' = s.formed /\ Log(<<[t |-> now', op |-> "formed"]>>)
  /\ UNCHANGED <<s, inst, q, tm, net, seq, evs, sent, end, side, gone, left, acts>>

Happen(t) ==
  LET timed == {k \in DOMAIN acts : acts[k].at = t}
      counted == {k \in DOMAIN acts : "formed" \in flags /\ acts[k].ev >= 0 /\ acts[k].ev <= evs}
      due == {Earliest(OfInst(i)) : i \in {i \in DOMAIN inst : OfInst(i) # {} /\ Earliest(OfInst(i)).dl = t}}
      arr == {x \in net : x.at = t}
      Do(k) == Perform(acts[k]) /\ acts' = RemoveAt(acts, k)
  IN /\ now' = t /\ s' = s
     /\ end' = EndNow
     /\ IF timed # {} THEN Do(MinOf(timed)) /\ evs' = evs
        ELSE IF counted # {} THEN Do(MinOf(counted)) /\ evs' = evs
        ELSE
          /\ acts' = acts /\ evs' = evs + B2N("formed" \in flags)
          /\ UNCHANGED <<side, gone, left>>
          /\ \E x \in {RandomElement(due \cup arr)} :
               IF "dl" \in DOMAIN x
               THEN DoCall(x.i, [op |-> "timer", t |-> x.t, tok |-> x.tok, id |-> x.id, inc |-> x.inc], "timer", x.t, <<>>, tm \ {x}, net, <<>>)
               ELSE IF x.d.to[1] \in gone
               THEN /\ net' = net \ {x} /\ UNCHANGED <<inst, q, tm, seq, sent, flags, ms, bad>>
               ELSE DoCall(x.d.to[1], Arrives(x.d), "data",
                           IF x.d.kind = "turnundead" /\ x.d.dst # inst[x.d.to[1]].me THEN "turnundead-old" ELSE x.d.kind,
                           x.d.src, tm, net \ {x}, <<>>)
Next ==
  /\ bad = ""
  /\ IF DOMAIN s = {} THEN Start
     ELSE /\ ~Over
          /\ LET T == Times
                 t == IF T = {} THEN EndNow + 1 ELSE MinOf(T)
             IN IF "formed" \notin flags /\ t >= s.formed THEN Form
                ELSE IF t > EndNow THEN Finish
                ELSE Happen(t)

Good == bad = "" \/ bad = "concurrent-joins-few-transmissions: members that joined at the same time never met"
=============================================================================
