#!/bin/sh
# Writes the root modules T_<P>.tla from one template
cd "$(dirname "$0")" || exit 2
for P in "$@"; do cat > T_$P.tla <<END
------------------------------- MODULE T_$P -------------------------------
(* Recorded histories of the real code, judged by the monitor P_$P.        *)
EXTENDS P_$P, TraceIO
VARIABLES tid, l, m
Init == tid \\in DOMAIN Traces /\\ l = 1 /\\ m = MInit(Traces[tid].h)
Next ==
  /\\ l <= Len(Traces[tid].ev)
  /\\ m.bad = ""
  /\\ m' = MStep(m, Traces[tid].ev[l])
  /\\ l' = l + 1
  /\\ UNCHANGED tid
  /\\ m'.bad # "" => PrintT("BAD " \\o ToJson(<<Traces[tid].tid, l, m'.bad>>))
  /\\ l = Len(Traces[tid].ev) => PrintT("COV " \\o ToJson(<<Traces[tid].tid, m'.n>>))
=============================================================================
END
done
