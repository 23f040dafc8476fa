------------------------------ MODULE Trace_Pure ------------------------------
(***************************************************************************)
(* Judges histories of calls by the law of Calls (PureLog): all calls of one  *)
(* operation have the same result.  An event is the part of the histories      *)
(* that concerns one operation: results[k] is its result in history how[k]      *)
(* (a number that stands for the whole of the recorded result; 0: the call     *)
(* did not return).                                                          *)
(***************************************************************************)
EXTENDS TraceLib

JudgePure(e) ==
  LET log == {<<e.call, e.results[k]>> : k \in 1..Len(e.results)} IN
  If(Len(e.results) # Len(e.how) \/ ~(\A x, y \in log : x[1] = y[1] => x[2] = y[2]), "C24")
  \cup If(\E k \in 1..Len(e.results) : e.results[k] = 0, "crash")
Checked == Report(JudgePure(Log[i]))
=============================================================================
