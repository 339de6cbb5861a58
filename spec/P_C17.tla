------------------------------- MODULE P_C17 -------------------------------
(***************************************************************************)
(* Determinism and non-interference of rejected inputs.  A recorded        *)
(* history is replayed on a fresh instance with the same seed; `ins` marks *)
(* inputs inserted into the replay.  For the others d0 is the digest of    *)
(* everything observable about the call in the first run and d1 in this    *)
(* one; for inserted ones d0/d1 are the digests of the observable state    *)
(* before and after the call.                                              *)
(***************************************************************************)
EXTENDS Obs

MInit(h) == [b |-> BInit(h), tm |-> <<>>, off |-> FALSE, bad |-> "",
             n |-> [ev |-> 0, base |-> 0, oversize |-> 0, header |-> 0, own |-> 0, framing |-> 0, dst |-> 0,
                    members |-> 0, timer |-> 0, api |-> 0, unjudged |-> 0]]

RECURSIVE Epochs(_, _, _)
Epochs(tm, out, ep) ==
  IF out = <<>> THEN tm
  ELSE LET o == Head(out)
       IN IF IsTimer(o) THEN Epochs(Append(tm, ep), Tail(out), ep)
          ELSE Epochs(tm, Tail(out), IF BumpsEpoch(o) THEN ep + 1 ELSE ep)

(* Why the input is rejected; "" when it is not one of the classes named   *)
RejectClass(m, e) ==
  LET c == e.c
      b == m.b
  IN
  CASE c.op = "data" ->
         CASE c.len > b.cfg.mps -> "oversize"
           [] ~c.hdr -> "header"
           [] c.src[1] = b.me[1] -> "own"
           [] c.after = 1 \/ (c.kind = "announce" /\ c.after > 0) -> "framing"
           [] c.dst # b.me /\ ~(c.kind = "announce" /\ c.dst[1] = b.me[1]) -> "dst"
           [] ~c.mok -> "members"
           [] OTHER -> ""
    [] c.op = "timer" ->
         IF c.t # "rm" /\ c.n \in DOMAIN m.tm /\ (b.ep - m.tm[c.n]) % 256 # 0 THEN "timer" ELSE ""
    [] c.op = "reuse" /\ e.res = "NotUndead" -> "api"
    [] c.op = "changeid" /\ e.res = "SameIdentity" -> "api"
    [] c.op = "setcfg" /\ e.res = "InvalidConfig" -> "api"
    [] c.op = "addb" /\ e.res \in {"DataTooBig", "MalformedPacket"} -> "api"
    [] OTHER -> ""

MStep(m, e) ==
  IF m.off THEN m
  ELSE IF Panicked(e) THEN [m EXCEPT !.off = TRUE]
  ELSE
  LET b == m.b
      cls == IF e.ins THEN RejectClass(m, e) ELSE ""
      off == e.ins /\ cls = ""
      bad == IF off THEN "" ELSE FirstBad(<<
        <<e.ins => e.out = <<>>, "a rejected input (" \o cls \o ") had effects">>,
        <<e.ins => e.rx = <<>>, "a rejected input (" \o cls \o ") reached the broadcast handler">>,
        <<e.ins => e.d0 = e.d1, "a rejected input (" \o cls \o ") changed the observable state">>,
        <<~e.ins => e.d0 = e.d1,
          IF \A k \in {"oversize", "header", "own", "framing", "dst", "members", "timer", "api"} : m.n[k] = 0
          THEN "the same calls with the same seed behaved differently"
          ELSE "rejected inputs altered the rest of the history">> >>)
      z == m.n
  IN [b |-> BStep(b, e), tm |-> Epochs(m.tm, e.out, b.ep + B2N(ResetCall(e))), off |-> off, bad |-> bad,
      n |-> [Inc(z, cls, 1) EXCEPT !.ev = @ + 1, !.base = @ + B2N(~e.ins), !.unjudged = @ + B2N(off)]]
=============================================================================
