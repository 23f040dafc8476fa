---------------------------- MODULE Trace_Session ----------------------------
(***************************************************************************)
(* Judges recorded histories of encode() and decode() calls: each event is  *)
(* one history, replayed on module Session.                                *)
(***************************************************************************)
EXTENDS Session, TraceLib

\* What the recorded step t contradicts in state q, and the state after it: <<names, state>>.
Step1(q, t) ==
  CASE t.a = "L" -> <<{}, DoLoad(q, t.dst, t.p)>>
    [] t.a = "J" -> <<{}, DoFill(q, t.s)>>
    [] t.a = "E" -> LET n == TLCEval(DoEncode(q, t.s, t.src, t.dst)) IN
                    <<If(t.out # n.reg[t.dst + 1], "C13")
                      \cup If(~ViewsOk(t.views, t.size) \/ ~t.pure, "C15"), n>>
    [] t.a = "D" -> LET d == TLCEval(DecodeParts(q.reg[t.src + 1][1]))
                    IN <<If(t.st # d.st, "C14")
                         \cup If(t.st = "ok" /\ d.st = "ok" /\ t.out # d.p, "C14")
                         \cup If(~ViewsOk(t.views, t.size) \/ ~t.pure, "C15"),
                         TLCEval(Decoded(q, t.s, t.src, t.dst, d))>>
\* live[r] is 0 if there is no value, 1 if the value of register r still reads as when
\* it was made, 2 if it does not.
Shown(n, t) == If(\E r \in DOMAIN n.reg : t.live[r] # IF n.reg[r] = <<>> THEN 0 ELSE 1, "C15")
RECURSIVE JudgeSteps(_, _, _)
JudgeSteps(q, ts, k) ==
  IF k > Len(ts) THEN {}
  ELSE LET x == Step1(q, ts[k])
           w == x[1]
       IN IF w # {} THEN w
          ELSE LET v == Shown(x[2], ts[k]) IN IF v # {} THEN v ELSE JudgeSteps(x[2], ts, k + 1)
JudgeSess(e) == CASE Crashed(e)    -> {"crash"}
                  [] e.op = "sess" -> JudgeSteps(Fresh0(e.regs), e.steps, 1)
Checked == Report(JudgeSess(Log[i]))
=============================================================================
