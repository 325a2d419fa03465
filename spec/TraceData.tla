------------------------------ MODULE TraceData ------------------------------
(* The recorded executions of the real code, one per line. *)
EXTENDS Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
