------------------------------ MODULE Trace_Tool ------------------------------
(***************************************************************************)
(* Judges recorded runs of uri-split: what it wrote, how it ended.            *)
(***************************************************************************)
EXTENDS UriSplitTool, TraceLib

JudgeTool(e) ==
  IF Crashed(e) THEN {"crash"}
  ELSE LET r == Run(e.streams) IN
       If(e.out # r.out, "C22") \cup If((e.exit = 0) # r.ok, "C22")
Checked == Report(JudgeTool(Log[i]))
=============================================================================
