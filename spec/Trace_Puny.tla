----------------------------- MODULE Trace_Puny ------------------------------
(***************************************************************************)
(* Judges recorded calls of punycode.hpp.                                   *)
(***************************************************************************)
EXTENDS Punycode, TraceLib

\* What decode() may say of s: r is one recorded result.
Says(r, want) == IF want.st = "ok" THEN r.st = "ok" /\ r.out = want.out /\ r.atend
                 ELSE r.st = want.st
JudgeEnc(e) ==
  LET w == PunyEncode(e.in)
      lit == IF AllBasic(e.in) THEN [j \in 1..Len(e.in) |-> ByteOf(e.in[j])] ELSE w
  IN If(\E k \in 1..Len(e.outs) : LET o == e.outs[k] IN
           \/ o.out # (IF o.plain THEN lit ELSE w)
           \/ o.any # ~AllBasic(e.in)
           \/ ~o.atend, "C11")
     \cup If(\E k \in 1..Len(e.back) : ~Says(e.back[k], [st |-> "ok", out |-> e.in]), "C11")
     \cup If(~e.pure, "C11")
JudgeDec(e) ==
  LET w == PunyDecode(e.in)
  IN If(\E k \in 1..Len(e.res) : ~Says(e.res[k], w), "C12")
     \cup If(~e.pure, "C12")
JudgePuny(e) == CASE Crashed(e)    -> {"crash"}
                  [] e.op = "penc" -> JudgeEnc(e)
                  [] e.op = "pdec" -> JudgeDec(e)
Checked == Report(JudgePuny(Log[i]))
=============================================================================
