-------------------------------- MODULE Peg ---------------------------------
(***************************************************************************)
(* The rule combinators: greedy, prioritised ("PEG") matching with actions   *)
(* which are kept back until the whole input is known to match.             *)
(*                                                                         *)
(* An expression is                                                        *)
(*   <<"ch", c>>        the character c, whatever its ASCII case              *)
(*   <<"rg", a, b>>     a character from a to b, whatever its ASCII case       *)
(*   <<"al">>, <<"di">>, <<"hx">>   a letter, a digit, a hexadecimal digit     *)
(*   <<"pr", cs>>       a character for which a predicate (the list cs) holds *)
(*   <<"rf", k>>        rule k of the grammar G                              *)
(*   <<"cat", steps>>   the steps in turn:                                  *)
(*        <<"C", e, act>>        e                                          *)
(*        <<"O", e, act>>        e or nothing                               *)
(*        <<"S", e, min, max>>   e from min to max times                    *)
(*        <<"A", es>>            the first that matches                      *)
(*        <<"N", e>>             nothing, if e does not match                *)
(* act names the action to run with the matched text; 0 is none.             *)
(***************************************************************************)
EXTENDS UriChars, Integers, SequencesExt

Inf == 999999
Matches(e, c) == CASE e[1] = "ch" -> ToLower(c) = ToLower(e[2])
                   [] e[1] = "rg" -> ToLower(e[2]) <= ToLower(c) /\ ToLower(c) <= ToLower(e[3])
                   [] e[1] = "al" -> c \in Alpha
                   [] e[1] = "di" -> c \in Digit
                   [] e[1] = "hx" -> c \in HexDig
                   [] e[1] = "pr" -> \E k \in 1..Len(e[2]) : e[2][k] = c
Prim(e) == e[1] \notin {"rf", "cat"}

\* --- definition --------------------------------------------------------------------
\* The result: whether e matches s from offset i; up to which offset; the actions,
\* each <<act, from, to>>, in the order in which they are to run.
Fail == [ok |-> FALSE, j |-> 0, acts |-> <<>>]
ActOf(a, i, j) == IF a = 0 THEN <<>> ELSE <<<<a, i, j>>>>
RECURSIVE Match(_, _, _, _), Steps(_, _, _, _, _), Reps(_, _, _, _, _), Firsts(_, _, _, _, _)
Match(G, e, s, i) ==
  IF Prim(e) THEN IF i < Len(s) /\ Matches(e, s[i + 1]) THEN [ok |-> TRUE, j |-> i + 1, acts |-> <<>>] ELSE Fail
  ELSE IF e[1] = "rf" THEN Match(G, G[e[2]], s, i)
  ELSE Steps(G, e[2], 1, s, [ok |-> TRUE, j |-> i, acts |-> <<>>])
\* steps k.. after the others gave m
Steps(G, st, k, s, m) ==
  IF ~m.ok \/ k > Len(st) THEN m
  ELSE LET t == st[k] IN
       Steps(G, st, k + 1, s,
         CASE t[1] \in {"C", "O"} ->
                LET r == Match(G, t[2], s, m.j) IN
                IF r.ok THEN [ok |-> TRUE, j |-> r.j, acts |-> m.acts \o r.acts \o ActOf(t[3], m.j, r.j)]
                ELSE IF t[1] = "O" THEN m ELSE Fail
           [] t[1] = "S" -> Reps(G, t, s, m, 0)
           [] t[1] = "N" -> IF Match(G, t[2], s, m.j).ok THEN Fail ELSE m
           [] t[1] = "A" -> Firsts(G, t[2], 1, s, m))
\* n times already. A repetition which matched nothing is not repeated (unless it must).
Reps(G, t, s, m, n) ==
  IF n = t[4] THEN m
  ELSE LET r == Match(G, t[2], s, m.j) IN
       IF ~r.ok THEN IF n >= t[3] THEN m ELSE Fail
       ELSE LET m2 == [ok |-> TRUE, j |-> r.j, acts |-> m.acts \o r.acts] IN
            IF r.j = m.j /\ n + 1 >= t[3] THEN m2 ELSE Reps(G, t, s, m2, n + 1)
Firsts(G, es, k, s, m) ==
  IF k > Len(es) THEN Fail
  ELSE LET r == Match(G, es[k], s, m.j) IN
       IF r.ok THEN [ok |-> TRUE, j |-> r.j, acts |-> m.acts \o r.acts] ELSE Firsts(G, es, k + 1, s, m)
\* the complete input
Accepts(G, e, s) == LET m == Match(G, e, s, 0) IN m.ok /\ m.j = Len(s)

\* --- the ABNF reading of e: every offset up to which e derives s from offset i -------
RECURSIVE Derives(_, _, _, _, _), DerSteps(_, _, _, _, _, _), DerReps(_, _, _, _, _, _)
\* (depth: how many rules of G may be entered)
Derives(G, e, s, i, depth) ==
  IF Prim(e) THEN IF i < Len(s) /\ Matches(e, s[i + 1]) THEN {i + 1} ELSE {}
  ELSE IF e[1] = "rf" THEN IF depth = 0 THEN {} ELSE Derives(G, G[e[2]], s, i, depth - 1)
  ELSE DerSteps(G, e[2], 1, s, {i}, depth)
DerSteps(G, st, k, s, from, depth) ==
  IF k > Len(st) THEN from
  ELSE LET t == st[k] IN
       DerSteps(G, st, k + 1, s,
         CASE t[1] = "C" -> UNION {Derives(G, t[2], s, i, depth) : i \in from}
           [] t[1] = "O" -> from \cup UNION {Derives(G, t[2], s, i, depth) : i \in from}
           [] t[1] = "N" -> {i \in from : Derives(G, t[2], s, i, depth) = {}}
           [] t[1] = "A" -> UNION {Derives(G, t[2][k2], s, i, depth) : i \in from, k2 \in 1..Len(t[2])}
           [] t[1] = "S" -> DerReps(G, t, s, from, 0, depth), depth)
DerReps(G, t, s, from, n, depth) ==
  LET next == UNION {Derives(G, t[2], s, i, depth) : i \in from} IN
  (IF n >= t[3] THEN from ELSE {})
  \cup (IF n = t[4] \/ next = {} \/ n > t[3] + Len(s) THEN {} ELSE DerReps(G, t, s, next, n + 1, depth))

\* --- the machine ---------------------------------------------------------------------
\* mode: "eval" (e is to be matched at pos), "next" (the top frame is to begin its
\* step n), "ok" or "fail" (how the last expression ended).  A frame is an
\* unfinished "cat": from and la are the offset and the number of pending actions to
\* go back to if the part which is being matched fails.
Frame(st) == [st |-> st, n |-> 1, from |-> 0, la |-> 0, cnt |-> 0, alt |-> 1]
MStart(e) == [mode |-> "eval", e |-> e, pos |-> 0, acts |-> <<>>, stack |-> <<>>]
Halted(c) == c.mode \in {"ok", "fail"} /\ c.stack = <<>>
TopOf(c) == c.stack[Len(c.stack)]
Pop(c) == SubSeq(c.stack, 1, Len(c.stack) - 1)
SetTop(c, f) == [c.stack EXCEPT ![Len(c.stack)] = f]
\* the top frame (now f) has e matched at the present position
Try(c, f, e) == [c EXCEPT !.mode = "eval", !.e = e,
                          !.stack = SetTop(c, [f EXCEPT !.from = c.pos, !.la = Len(c.acts)])]
Advance(c, f) == [c EXCEPT !.mode = "next", !.stack = SetTop(c, [f EXCEPT !.n = @ + 1, !.cnt = 0, !.alt = 1])]
Eval(G, s, c) ==
  IF Prim(c.e) THEN IF c.pos < Len(s) /\ Matches(c.e, s[c.pos + 1]) THEN [c EXCEPT !.mode = "ok", !.pos = @ + 1]
                    ELSE [c EXCEPT !.mode = "fail"]
  ELSE IF c.e[1] = "rf" THEN [c EXCEPT !.e = G[c.e[2]]]
  ELSE [c EXCEPT !.mode = "next", !.stack = Append(@, Frame(c.e[2]))]
Begin(c) ==
  LET f == TopOf(c) IN
  IF f.n > Len(f.st) THEN [c EXCEPT !.mode = "ok", !.stack = Pop(c)]
  ELSE LET t == f.st[f.n] IN
       CASE t[1] \in {"C", "O", "N"} -> Try(c, f, t[2])
         [] t[1] = "S" -> IF t[4] = 0 THEN Advance(c, f) ELSE Try(c, f, t[2])
         [] t[1] = "A" -> IF t[2] = <<>> THEN [c EXCEPT !.mode = "fail", !.stack = Pop(c)] ELSE Try(c, f, t[2][1])
Success(c) ==
  LET f == TopOf(c)
      t == f.st[f.n] IN
  CASE t[1] \in {"C", "O"} -> Advance([c EXCEPT !.acts = @ \o ActOf(t[3], f.from, c.pos)], f)
    [] t[1] = "A" -> Advance(c, f)
    [] t[1] = "N" -> [c EXCEPT !.mode = "fail", !.pos = f.from, !.acts = SubSeq(@, 1, f.la), !.stack = Pop(c)]
    [] t[1] = "S" -> IF f.cnt + 1 = t[4] \/ (c.pos = f.from /\ f.cnt + 1 >= t[3]) THEN Advance(c, f)
                     ELSE Try(c, [f EXCEPT !.cnt = @ + 1], t[2])
Failure(c0) ==
  LET f == TopOf(c0)
      t == f.st[f.n]
      c == [c0 EXCEPT !.pos = f.from, !.acts = SubSeq(@, 1, f.la)] IN
  CASE t[1] \in {"O", "N"} \/ (t[1] = "S" /\ f.cnt >= t[3]) -> Advance(c, f)
    [] t[1] = "A" /\ f.alt < Len(t[2]) -> Try(c, [f EXCEPT !.alt = @ + 1], t[2][f.alt + 1])
    [] OTHER -> [c EXCEPT !.stack = Pop(c)]
MStep(G, s, c) == CASE c.mode = "eval" -> Eval(G, s, c)
                    [] c.mode = "next" -> Begin(c)
                    [] c.mode = "ok"   -> Success(c)
                    [] c.mode = "fail" -> Failure(c)
=============================================================================
