------------------------------ MODULE Trace_Peg ------------------------------
(***************************************************************************)
(* Judges recorded uses of the rule combinators: each event is one           *)
(* expression (and the rules it refers to) matched against several inputs.    *)
(***************************************************************************)
EXTENDS Peg, TraceLib

RunOk(e, r) ==
  LET m == Match(e.g, e.e, r.s, 0)
      all == m.ok /\ m.j = Len(r.s) IN
  /\ r.ok = all
  /\ r.len = IF m.ok THEN m.j ELSE -1
  /\ r.tail /\ r.again /\ r.early = 0
  /\ r.acts = IF all THEN m.acts ELSE <<>>
JudgePeg(e) == CASE Crashed(e)   -> {"crash"}
                 [] e.op = "peg" -> If(\E k \in 1..Len(e.runs) : ~RunOk(e, e.runs[k]), "C20")
Checked == Report(JudgePeg(Log[i]))
=============================================================================
