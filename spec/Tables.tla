------------------------------- MODULE Tables -------------------------------
(* The option tables, read once from a file (a constant defined by the        *)
(* deserialiser would be read again for every state).                         *)
EXTENDS TLC, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.SCHEMAS))
Schemas == TLCGet(1)
=============================================================================
