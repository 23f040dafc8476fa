-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Calls of a library by several threads, in any order, one after the other,  *)
(* overlapping, nested (the library gives control to code of the caller's, an  *)
(* iterator, a predicate, an action, which calls the library again) or        *)
(* abandoned (such code throws).  A call of operation o has a working memory,  *)
(* which it prepares, uses in one or more steps, and from which it reads its  *)
(* result.                                                                  *)
(*                                                                         *)
(* The library is entitled to one arrangement only, "own": the working       *)
(* memory belongs to the call and is prepared by it.  Then, whatever the      *)
(* history, the results obey the law by which recorded histories are judged:  *)
(*                                                                         *)
(*   Pure    any two calls of the same operation have the same result, which  *)
(*           is that of the call made alone.                                *)
(*                                                                         *)
(* The other arrangements, each a mistake that passes any test which makes    *)
(* one call of one operation, are part of the model to show that the law      *)
(* tells them apart (MC_Calls requires that each of them breaks it) and which  *)
(* histories that takes:                                                     *)
(*                                                                         *)
(*   "shared"  one working memory for all threads;                           *)
(*   "scratch" one working memory for all calls of a thread;                  *)
(*   "kept"    a memory of the thread that is not prepared again;             *)
(*   "left"    a memory of the thread that each call cleans when it ends;     *)
(*   "setting" a result which depends on a setting of the process that others  *)
(*             change (the locale).                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads,     \* those who call
          Ops,         \* the operations (with their arguments): numbers
          Steps,       \* how often a call uses its memory
          Calls,       \* how many calls are made
          Deep,        \* how deep calls are nested
          Settings     \* what the process may be set to

VARIABLES kind,        \* the arrangement
          stack,       \* of each thread: its calls, the innermost last
          mem,         \* the working memories: of each thread, and of all (index 0)
          setting,     \* the setting of the process
          made,        \* calls begun so far
          log,         \* the history: operations with results
          did          \* what has happened in it
vars == <<kind, stack, mem, setting, made, log, did>>

Kinds == {"own", "shared", "scratch", "kept", "left", "setting"}
Happenings == {"again", "overlapping", "nested", "abandoned", "set"}

\* The operation proper: what a step makes of the memory; the result.
Prepare(o) == o
Use(o, m) == m + o
RECURSIVE After(_, _, _)
After(o, m, k) == IF k = 0 THEN m ELSE After(o, Use(o, m), k - 1)
Alone(o) == After(o, Prepare(o), Steps)

\* Where the innermost call of a thread works.
Busy(t) == stack[t] # <<>>
Top(t) == stack[t][Len(stack[t])]
Memory(t) == CASE kind \in {"own", "setting"} -> Top(t).m [] kind = "shared" -> mem[0] [] OTHER -> mem[t]
Written(t, v, s) ==   \* the state after thread t, whose calls are s, has written v
  CASE kind \in {"own", "setting"} -> stack' = [stack EXCEPT ![t] = [s EXCEPT ![Len(s)].m = v]] /\ UNCHANGED mem
    [] kind = "shared" -> stack' = [stack EXCEPT ![t] = s] /\ mem' = [mem EXCEPT ![0] = v]
    [] OTHER -> stack' = [stack EXCEPT ![t] = s] /\ mem' = [mem EXCEPT ![t] = v]

Init == /\ kind \in Kinds
        /\ stack = [t \in Threads |-> <<>>]
        /\ mem = [t \in Threads \cup {0} |-> 0]
        /\ setting = 0
        /\ made = 0
        /\ log = {}
        /\ did = {}

Begin(t, o) ==
  /\ made < Calls /\ Len(stack[t]) < Deep
  /\ Busy(t) => Top(t).left > 0
  /\ Written(t, IF kind \in {"kept", "left"} THEN mem[t] + o ELSE Prepare(o), Append(stack[t], [o |-> o, left |-> Steps, m |-> 0]))
  /\ made' = made + 1
  /\ did' = did \cup (IF Busy(t) THEN {"nested"} ELSE {}) \cup (IF \E u \in Threads \ {t} : Busy(u) THEN {"overlapping"} ELSE {})
                \cup (IF made > 0 THEN {"again"} ELSE {})
  /\ UNCHANGED <<kind, setting, log>>
Work(t) ==
  /\ Busy(t) /\ Top(t).left > 0
  /\ Written(t, Use(Top(t).o, Memory(t)), [stack[t] EXCEPT ![Len(stack[t])].left = @ - 1])
  /\ UNCHANGED <<kind, setting, made, log, did>>
Drop(t) == stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
End(t) ==
  /\ Busy(t) /\ Top(t).left = 0
  /\ Drop(t)
  /\ log' = log \cup {<<Top(t).o, Memory(t) + IF kind = "setting" THEN setting ELSE 0>>}
  /\ mem' = IF kind = "left" THEN [mem EXCEPT ![t] = 0] ELSE mem
  /\ UNCHANGED <<kind, setting, made, did>>
\* The caller's code throws: the call ends without result, and what contains it is abandoned too.
Abandon(t) ==
  /\ Busy(t) /\ Top(t).left > 0
  /\ stack' = [stack EXCEPT ![t] = <<>>]
  /\ did' = did \cup {"abandoned"}
  /\ UNCHANGED <<kind, mem, setting, made, log>>
Set(s) == s # setting /\ setting' = s /\ did' = did \cup {"set"} /\ UNCHANGED <<kind, stack, mem, made, log>>

Next == \/ \E t \in Threads : (\E o \in Ops : Begin(t, o)) \/ Work(t) \/ End(t) \/ Abandon(t)
        \/ \E s \in Settings : Set(s)
Spec == Init /\ [][Next]_vars

PureLog == \A x, y \in log : x[1] = y[1] => x[2] = y[2]
AsAlone == \A x \in log : x[2] = Alone(x[1])

\* Without any of these in the history the mistake cannot be seen at all.
ShownBy == [own |-> {}, shared |-> {"overlapping", "nested"}, scratch |-> {"nested"}, kept |-> {"again"},
            left |-> {"nested", "abandoned"}, setting |-> {"set"}]
=============================================================================
