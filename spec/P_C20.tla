------------------------------- MODULE P_C20 -------------------------------
(***************************************************************************)
(* The contract of the bundled codecs.  Encoding is a partial function     *)
(* from values to byte strings, decoding its inverse on the first item of  *)
(* the input: what follows the item, or lies behind the end of the input,  *)
(* makes no difference.  Too little room is an error, never a panic, and   *)
(* the Feeds foca packs by running into that error are well-formed.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ok == 0
Err == 1
Panic == 2
B2N(b) == IF b THEN 1 ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE FirstBad(_)
FirstBad(s) == IF s = <<>> THEN "" ELSE IF Head(s)[1] THEN FirstBad(Tail(s)) ELSE Head(s)[2]
Rng(s) == {s[i] : i \in DOMAIN s}

MInit(h) == [bad |-> "", n |-> [ev |-> 0, values |-> 0, rooms |-> 0, decodes |-> 0, truncs |-> 0, junk |-> 0, junkok |-> 0,
                                feeds |-> 0, partial |-> 0, claims |-> 0, maxlen |-> 0]]

(* A value, its encoding into every amount of room, and back *)
Value(e) ==
  LET L == e.len
      R == Rng(e.room)   \* <<buffer, room, outcome, written, prefix of the encoding>>
      D == e.dec
      T == Rng(e.trunc)  \* <<bytes left, outcome, consumed, with bytes behind the end: outcome, consumed>>
  IN FirstBad(<<
       <<e.res # Panic, "panic while encoding">>,
       <<e.res = Ok, "a value does not encode">>,
       <<\A r \in R : r[3] # Panic, "panic while encoding into a short buffer">>,
       <<\A r \in R : r[2] < L => r[3] = Err, "encoding into a short buffer succeeded">>,
       <<\A r \in R : r[2] >= L => r[3] = Ok, "encoding failed with enough room">>,
       <<\A r \in R : r[3] = Ok => r[4] = L /\ r[5] = 1, "the encoding depends on the room">>,
       <<\A r \in R : r[4] <= r[2], "wrote more than there was room for">>,
       <<\A i \in DOMAIN D : D[i].res # Panic, "panic while decoding">>,
       <<\A i \in DOMAIN D : D[i].res = Ok, "an encoded value does not decode">>,
       <<\A i \in DOMAIN D : D[i].res = Ok => D[i].val = e.val, "decoded another value">>,
       <<\A i \in DOMAIN D : D[i].used = L, "decoding consumed other bytes than those produced">>,
       <<\A t \in T : t[2] # Panic /\ t[4] # Panic, "panic while decoding a truncated encoding">>,
       <<\A t \in T : t[3] <= t[1] /\ t[5] <= t[1], "read past the input">>,
       <<\A t \in T : t[2] = t[4], "bytes behind the end of the input made a difference">> >>)

(* A length prefix that no allocation can satisfy, and nothing that limits it *)
Claim(e) == e.unlimited /\ e.prefixed /\ e.msg = "capacity overflow"

(* Arbitrary bytes *)
Junk(e) ==
  LET A == e.all
      G == e.again
      R == e.re
  IN FirstBad(<<
       <<\A i \in DOMAIN A : A[i].res # Panic,
         IF Claim(e) THEN "bincode-unlimited-length-claim: panic while decoding a claimed length beyond what can be allocated"
         ELSE "panic while decoding arbitrary bytes">>,
       <<\A i \in DOMAIN A : A[i].used <= e.len, "read past the input">>,
       <<\A i, j \in DOMAIN A : A[i].res = A[j].res /\ (A[i].res = Ok /\ A[j].res = Ok => A[i] = A[j]), "decoding depends on the buffer or on what lies behind it">>,
       <<\A i \in DOMAIN G : G[i].res = Ok /\ (A[1].res = Ok => G[i].val = A[1].val /\ G[i].used = A[1].used),
         "decoding depends on more than the bytes consumed">>,
       <<\A i \in DOMAIN R : R[i].enc = Ok /\ R[i].dec.res = Ok /\ R[i].dec.used = R[i].len
                              /\ (A[1].res = Ok => R[i].dec.val = A[1].val),
         "a decoded value does not round-trip">> >>)

Feed(e) ==
  LET S == Rng(e.sends)
  IN FirstBad(<<
       <<e.res # "panic", "panic while packing a Feed">>,
       <<\A s \in S : s.len <= e.mps, "a Feed larger than max_packet_size">>,
       <<\A s \in S : s.hdr, "a datagram whose header does not decode">>,
       <<\A s \in S : s.kind = "feed" => s.mok /\ s.tok /\ s.items = <<>> /\ (s.cnt >= 0 => s.cnt = Len(s.ups)),
         "a Feed that does not hold what it announces">>,
       <<\A s \in S : s.kind = "feed" => Rng(s.ups) = {} \/ \A u \in Rng(s.ups) : \E k \in Rng(e.known) : u[1] = k[1] /\ u[2] = k[2],
         "a Feed with a member nobody told about">>,
       <<\A s \in S : s.kind = "feed" => Cardinality({u[1] : u \in Rng(s.ups)}) = Len(s.ups), "a Feed repeats a member">> >>)

MStep(m, e) ==
  LET z == m.n
      feed == IF e.op = "feed" THEN {s \in Rng(e.sends) : s.kind = "feed"} ELSE {}
  IN [bad |-> IF e.op = "val" THEN Value(e) ELSE IF e.op = "junk" THEN Junk(e) ELSE Feed(e),
      n |-> [z EXCEPT !.ev = @ + 1,
        !.values = @ + B2N(e.op = "val"),
        !.rooms = @ + (IF e.op = "val" THEN Len(e.room) ELSE 0),
        !.decodes = @ + (IF e.op = "val" THEN Len(e.dec) ELSE 0),
        !.truncs = @ + (IF e.op = "val" THEN Len(e.trunc) ELSE 0),
        !.junk = @ + B2N(e.op = "junk"),
        !.junkok = @ + B2N(e.op = "junk" /\ e.all[1].res = Ok),
        !.claims = @ + B2N(e.op = "junk" /\ e.msg # ""),
        !.feeds = @ + Cardinality(feed),
        !.partial = @ + B2N(\E s \in feed : s.cnt > 0 /\ e.mps < e.full),
        !.maxlen = IF e.op = "val" THEN Max2(@, e.len) ELSE @]]
=============================================================================
