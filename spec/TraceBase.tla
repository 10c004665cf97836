----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace: one JSON event per line, one line per real call *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)
\* observation `name` fails unless cond holds
Obs(name, cond) == IF cond THEN {} ELSE {name}
\* every line was consumed (one state per line plus the initial state)
TraceAccepted == TLCGet("stats").diameter - 1 = TraceLen
=============================================================================
