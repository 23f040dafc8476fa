------------------------------ MODULE Trace_Algo ------------------------------
(* Judges recorded calls of find_last and starts_with. *)
EXTENDS Algo, TraceLib

Find1(e, r) == <<r.from, r.to>> = FindLast(r.s, r.v, e.proj)
\* (if "more", s goes on: with elements that are 5)
Long(e, r) == IF e.more THEN r.s \o [k \in 1..Len(r.p) |-> 5] ELSE r.s
Start1(e, r) == r.is = PrefixBy(Long(e, r), r.p, e.pred, e.p1, e.p2)
JudgeAlgo(e) == CASE Crashed(e)  -> {"crash"}
                  [] e.op = "fl" -> If(\E k \in 1..Len(e.runs) : ~Find1(e, e.runs[k]), "C23")
                  [] e.op = "sw" -> If(\E k \in 1..Len(e.runs) : ~Start1(e, e.runs[k]), "C23")
Checked == Report(JudgeAlgo(Log[i]))
=============================================================================
