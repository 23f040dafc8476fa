----------------------------- MODULE Trace_Pct -------------------------------
(***************************************************************************)
(* Judges recorded calls of pctencode.hpp and pctdecode.hpp.                *)
(***************************************************************************)
EXTENDS Pct, TraceLib

AllEq(outs, x) == \A k \in 1..Len(outs) : outs[k] = x

JudgeEnc(e) ==
  LET set  == EncSet(e.set)
      want == PctEncode(set, e.in)
      need == NeedsEncode(set, e.in)
  IN If(~AllEq(e.outs, want), "C09")
     \cup If(\E k \in 1..Len(e.needs) : e.needs[k] # need, "C09")
     \cup If(e.each # [k \in 1..Len(e.in) |-> e.in[k] \in set], "C09")
     \* decoding inverts encoding
     \cup If(e.set # "none" /\ ~AllEq(e.back, e.in), "C10")
     \cup If(~AllEq(e.back, PctDecode(want)), "C10")
     \cup If(~e.pure, "C09")

JudgeDec(e) ==
  LET want  == PctDecode(e.in)
      stops == Stops(e.in, 1)
  IN If(~AllEq(e.outs, want), "C10")
     \cup If(~AllEq(e.stops, stops), "C10")
     \cup If(\E k \in 1..Len(e.needs) : e.needs[k] # (\E j \in 1..Len(e.in) : e.in[j] = 37), "C10")
     \cup If(~e.pure, "C10")

JudgePct(e) == CASE Crashed(e)   -> {"crash"}
                 [] e.op = "enc" -> JudgeEnc(e)
                 [] e.op = "dec" -> JudgeDec(e)
Checked == Report(JudgePct(Log[i]))
=============================================================================
