-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* What an observer of one instance sees, one event per call (see          *)
(* DESIGN.md, "events"), and the bookkeeping every property monitor        *)
(* shares: identity, configuration, membership view, connection state and  *)
(* timer epoch, all derived from observable effects only.                  *)
(***************************************************************************)
EXTENDS Membership, TLC, SequencesExt, FiniteSetsExt, Functions

Rng(s) == {s[i] : i \in DOMAIN s}
Sel(s, P(_)) == SelectSeq(s, P)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

IsSend(o) == o.o = "send"
IsNote(o) == o.o = "note"
IsTimer(o) == o.o = "timer"
Sends(e) == Sel(e.out, IsSend)
Notes(e) == Sel(e.out, IsNote)
Timers(e) == Sel(e.out, IsTimer)

Panicked(e) == e.res = "panic"
HasF(r, f) == f \in DOMAIN r

View(s) ==
  LET D == {s[i][1] : i \in DOMAIN s}
  IN [a \in D |-> LET i == CHOOSE i \in DOMAIN s : s[i][1] = a
                  IN <<s[i][2], s[i][3], s[i][4]>>]

(* Message kinds *)
Piggybacks(k) == k \notin {"announce", "turnundead", "broadcast"}
UpdatesIn(k) == k \in {"ping", "ack", "pingreq", "indping", "indack", "fwdack", "gossip"}
CarriesItems(k) == k \notin {"announce", "turnundead"}

(***************************************************************************)
(* Base: me, ren, cfg, mem (view), seq (records in order), conn, ep        *)
(***************************************************************************)
BInit(h) ==
  [me |-> h.me, ren |-> h.ren, cfg |-> h.cfg, mem |-> [x \in {} |-> 0], seq |-> <<>>,
   conn |-> "idle", ep |-> 0]

BumpsEpoch(o) == IsNote(o) /\ o.k \in {"idle", "defunct", "rejoin"}
NumBumps(out) == Len(Sel(out, BumpsEpoch))
(* the identity changes even when the gossip that follows cannot be encoded *)
Changed(e) == e.c.op = "changeid" /\ (e.res = "Ok" \/ (e.res = "Encode" /\ e.me = e.c.id))
ResetCall(e) == Changed(e) \/ (e.c.op = "reuse" /\ e.res = "Ok")

IsConnNote(o) == IsNote(o) /\ o.k \in {"active", "idle", "rejoin", "defunct"}
ConnAfter(conn, out) ==
  LET s == Sel(out, IsConnNote)
  IN IF s = <<>> THEN conn
     ELSE LET k == s[Len(s)].k IN IF k = "rejoin" THEN "idle" ELSE k

BConn0(b, e) == IF ResetCall(e) THEN "idle" ELSE b.conn

BStep(b, e) ==
  IF Panicked(e) THEN b
  ELSE [b EXCEPT
    !.me = e.me,
    !.ren = IF Changed(e) THEN e.c.ren ELSE @,
    !.cfg = IF e.c.op = "setcfg" /\ e.res = "Ok" THEN e.c.cfg ELSE @,
    !.mem = IF HasF(e, "mem") THEN View(e.mem) ELSE @,
    !.seq = IF HasF(e, "mem") THEN e.mem ELSE @,
    !.conn = ConnAfter(BConn0(b, e), e.out),
    !.ep = @ + NumBumps(e.out) + (IF ResetCall(e) THEN 1 ELSE 0)]

(* The view after the event *)
MemAfter(b, e) == IF HasF(e, "mem") THEN View(e.mem) ELSE b.mem

(***************************************************************************)
(* Classification of received datagrams                                    *)
(***************************************************************************)
(* Addressed to the instance and well-formed up to the member section *)
DataAccepted(b, e) ==
  LET c == e.c IN
  /\ c.op = "data"
  /\ c.len <= b.cfg.mps
  /\ c.hdr
  /\ c.src[1] # b.me[1]
  /\ c.after # 1
  /\ ~(c.kind = "announce" /\ c.after > 0)
  /\ c.dst = b.me \/ (c.kind = "announce" /\ c.dst[1] = b.me[1])
  /\ c.mok

(* The record kept after hearing from src at incarnation inc *)
HeardFrom(v, src, inc) == Absorb(v, <<src[1], src[2], inc, Alive>>)

(* Payload of superseded or Down identities is discarded *)
SenderActive(v, src) ==
  ~Has(v, src[1]) \/ src[2] > v[src[1]][1] \/ (src[2] = v[src[1]][1] /\ Active(v[src[1]]))

(* The updates an event makes the instance apply, in order *)
AppliedUpdates(b, e) ==
  CASE e.c.op = "apply" -> e.c.ups
    [] e.c.op = "data" ->
         IF DataAccepted(b, e) /\ SenderActive(b.mem, e.c.src)
         THEN [i \in DOMAIN e.c.ups |-> SubSeq(e.c.ups[i], 1, 4)]
         ELSE <<>>
    [] OTHER -> <<>>

(***************************************************************************)
(* The own incarnation, as an interval [lo, hi]: pinned by every header,   *)
(* widened by every suspicion not older than lo.                           *)
(***************************************************************************)
Mine(me, u) == u[1] = me[1] /\ u[2] = me[2]

RECURSIVE OwnWalk(_, _, _)
OwnWalk(w, us, ren) ==
  IF us = <<>> THEN w
  ELSE
  LET u == Head(us)
      w2 ==
        IF ~Mine(w.me, u) \/ u[4] = Alive THEN w
        ELSE IF u[4] = Down \/ u[3] = MaxInc THEN
               LET k == CanRenew(ren, w.me) IN
               [w EXCEPT !.deaths = Append(@, w.me), !.me = Renewed(ren, w.me),
                         !.lo = IF k THEN 0 ELSE @, !.hi = IF k THEN 0 ELSE @,
                         !.touch = @ + 1]
             ELSE [w EXCEPT !.lo = Max2(@, u[3] + 1),
                            !.hi = IF u[3] >= w.lo THEN MaxInc ELSE @,
                            !.maybe = @ \/ w.hi = MaxInc,
                            !.touch = @ + 1]
  IN OwnWalk(w2, Tail(us), ren)

OwnInit == [lo |-> 0, hi |-> 0]
OwnWalkOf(own, b, e) ==
  OwnWalk([me |-> b.me, lo |-> own.lo, hi |-> own.hi, deaths |-> <<>>, maybe |-> FALSE, touch |-> 0],
          SelectSeq(AppliedUpdates(b, e), LAMBDA u : u[1] = b.me[1]), b.ren)

SentAs(e, id) == Sel(e.out, LAMBDA o : o.o = "send" /\ o.hdr /\ o.src = id)

OwnAfter(own, b, e) ==
  LET w == OwnWalkOf(own, b, e)
      base == IF ResetCall(e) THEN [lo |-> 0, hi |-> 0]
              ELSE IF e.me = w.me THEN [lo |-> w.lo, hi |-> w.hi]
              ELSE [lo |-> 0, hi |-> IF w.touch > 1 THEN MaxInc ELSE 0]
      ss == SentAs(e, e.me)
  IN IF Panicked(e) \/ ss = <<>> THEN base
     ELSE LET x == ss[Len(ss)].inc
          IN [lo |-> Max2(base.lo, x), hi |-> IF w.touch <= 1 THEN Max2(base.lo, x) ELSE base.hi]

(* Calls in which the outcome of a failed encoding is not modelled *)
EncodeFailed(e) == e.res = "Encode"

(* A list of named obligations: the first broken one *)
RECURSIVE FirstBad(_)
FirstBad(obl) ==
  IF obl = <<>> THEN ""
  ELSE IF ~Head(obl)[1] THEN Head(obl)[2] ELSE FirstBad(Tail(obl))

Inc(n, k, by) == IF k \in DOMAIN n THEN [n EXCEPT ![k] = @ + by] ELSE n
B2N(x) == IF x THEN 1 ELSE 0
=============================================================================
