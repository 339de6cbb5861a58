------------------------------- MODULE T_C02 -------------------------------
(* Recorded histories of the real code, judged by the monitor P_C02.        *)
EXTENDS P_C02, TraceIO
VARIABLES tid, l, m
Init == tid \in DOMAIN Traces /\ l = 1 /\ m = MInit(Traces[tid].h)
Next ==
  /\ l <= Len(Traces[tid].ev)
  /\ m.bad = ""
  /\ m' = MStep(m, Traces[tid].ev[l])
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ m'.bad # "" => PrintT("BAD " \o ToJson(<<Traces[tid].tid, l, m'.bad>>))
  /\ l = Len(Traces[tid].ev) => PrintT("COV " \o ToJson(<<Traces[tid].tid, m'.n>>))
=============================================================================
