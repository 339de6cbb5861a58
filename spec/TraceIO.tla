------------------------------ MODULE TraceIO ------------------------------
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
(* One recorded history per line of the file named by $TRACE *)
Traces == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
