------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Validating a log of independent calls.  The log (one JSON object per     *)
(* line, in the file named by TRACE) records calls of the implementation   *)
(* with their arguments and results.  A module that extends this one says   *)
(* which properties an event contradicts; each event that contradicts any  *)
(* is reported.  The log is read in Shards interleaved pieces so that TLC's    *)
(* workers share it.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE i

Log == ndJsonDeserialize(IOEnv.TRACE)
Shards == 64
Init == i \in 1..(IF Len(Log) < Shards THEN Len(Log) ELSE Shards)
Next == i + Shards <= Len(Log) /\ i' = i + Shards
\* A call which never returned contradicts every property.
Crashed(e) == e.op = "crash"
\* v: the names of the properties which event i contradicts
Report(v) == v = {} \/ PrintT(<<"REJECT", i, v>>)
\* {id} if bad
If(bad, id) == IF bad THEN {id} ELSE {}
=============================================================================
