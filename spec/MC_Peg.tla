------------------------------- MODULE MC_Peg --------------------------------
(***************************************************************************)
(* The machine of module Peg implements the definition, terminates, and      *)
(* what it matches is always a derivation under the ABNF reading; its actions *)
(* come in the order of the text.  For all small expressions and inputs.      *)
(***************************************************************************)
EXTENDS Peg, TLC
CONSTANTS MaxLen, Wide
VARIABLES g, e, s, c, n
vars == <<g, e, s, c, n>>

a == <<"ch", 97>>     b == <<"ch", 66>>
Strings == UNION {[1..k -> {97, 98}] : k \in 0..MaxLen}
StepsOver(X, Acts, Bounds) ==
  {<<"C", x, k>> : x \in X, k \in Acts} \cup {<<"O", x, k>> : x \in X, k \in Acts}
  \cup {<<"S", x, m[1], m[2]>> : x \in X, m \in Bounds}
AltsOver(X, Y) == {<<"A", <<x, y>>>> : x \in X, y \in Y}
Bounds0 == {<<0, Inf>>, <<1, 1>>, <<1, 2>>}
Step0 == StepsOver({a, b}, {0, 1}, Bounds0) \cup AltsOver({a, b}, {a, b})
Level1 == {<<"cat", <<>>>>} \cup {<<"cat", <<x>>>> : x \in Step0} \cup {<<"cat", <<x, y>>>> : x \in Step0, y \in Step0}
Narrow == {<<"cat", <<>>>>} \cup {<<"cat", <<x>>>> : x \in Step0} \cup {<<"cat", <<x, <<"C", b, 2>>>>>> : x \in Step0}
Inner == IF Wide THEN Level1 ELSE Narrow
Step1 == StepsOver(Inner, {3}, {<<0, Inf>>, <<2, 2>>, <<0, 1>>, <<2, 3>>})
         \cup AltsOver(Narrow, {a, <<"cat", <<>>>>})
         \cup {<<"N", x>> : x \in {a, b, <<"cat", <<<<"C", a, 1>>, <<"C", b, 2>>>>>>}}
Level2 == {<<"cat", <<x>>>> : x \in Step1}
          \cup {<<"cat", <<x, <<"C", y, 4>>>>>> : x \in Step1, y \in IF Wide THEN {a, b} ELSE {b}}
          \cup {<<"cat", <<<<"C", y, 4>>, x>>>> : x \in Step1, y \in IF Wide THEN {a, b} ELSE {a}}
\* recursive rules
Rec == {<<<<"cat", <<<<"A", <<<<"cat", <<<<"C", a, 1>>, <<"C", <<"rf", 1>>, 2>>, <<"C", b, 3>>>>>>, <<"cat", <<>>>>>>>>>>>>>>,
        <<<<"cat", <<<<"C", a, 1>>, <<"O", <<"rf", 2>>, 2>>>>>>, <<"cat", <<<<"S", b, 0, 1>>, <<"C", <<"rf", 1>>, 4>>>>>>>>,
        <<<<"cat", <<<<"A", <<<<"cat", <<<<"C", b, 1>>, <<"S", <<"rf", 1>>, 1, Inf>>>>>>, a>>>>>>>>>>}

Init == /\ \/ g = <<>> /\ e \in Level1 \cup Level2
           \/ g \in Rec /\ e = <<"rf", 1>>
        /\ s \in Strings
        /\ c = MStart(e) /\ n = 0
Next == ~Halted(c) /\ c' = MStep(g, s, c) /\ n' = n + 1 /\ UNCHANGED <<g, e, s>>

M == Match(g, e, s, 0)
Implements == Halted(c) => /\ (c.mode = "ok") = M.ok
                           /\ M.ok => c.pos = M.j /\ c.acts = M.acts
\* (a successor exists in each other state, and there are only so many)
Terminates == n <= 40 * (MaxLen + 2)
Derivation == Halted(c) /\ c.mode = "ok" => c.pos \in Derives(g, e, s, 0, 2 * MaxLen + 2)
\* Of a match nothing is left over or run twice: actions end in the order in which
\* they run, and any two are disjoint or nested.
Ordered == \A x, y \in 1..Len(c.acts) : x < y =>
             /\ c.acts[x][3] <= c.acts[y][3]
             /\ c.acts[x][3] <= c.acts[y][2] \/ c.acts[x][2] >= c.acts[y][2]
Inside == \A x \in 1..Len(c.acts) : 0 <= c.acts[x][2] /\ c.acts[x][2] <= c.acts[x][3] /\ c.acts[x][3] <= c.pos
=============================================================================
