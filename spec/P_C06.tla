------------------------------- MODULE P_C06 -------------------------------
(* No call panics, overflows or aborts.                                    *)
EXTENDS Integers, Sequences, TLC

Ops == <<"new", "data", "timer", "crafted", "announce", "gossip", "broadcast", "leave", "changeid", "reuse", "apply", "addb",
         "setcfg", "config">>
Results == <<"Ok", "DataTooBig", "NotUndead", "SameIdentity", "NotConnected", "IncompleteProbeCycle", "DataFromOurselves",
             "IndirectForOurselves", "MalformedPacket", "Encode", "Decode", "CustomBroadcast", "InvalidConfig">>
Zero(s) == [x \in {s[i] : i \in DOMAIN s} |-> 0]
MInit(h) == [bad |-> "", n |-> [ev |-> 0, configs |-> 0] @@ Zero(Ops) @@ Zero(Results)]
Bump(n, k, by) == IF k \in DOMAIN n THEN [n EXCEPT ![k] = @ + by] ELSE n
MStep(m, e) ==
  IF e.res = "panic" THEN [m EXCEPT !.bad = "panic: " \o e.msg]
  ELSE [m EXCEPT !.n = Bump(Bump(Bump(Bump(m.n, "ev", 1), e.res, 1), e.c.op, 1), "configs",
                            IF e.c.op = "config" THEN e.out ELSE 0)]
=============================================================================
