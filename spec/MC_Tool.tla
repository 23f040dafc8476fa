------------------------------- MODULE MC_Tool -------------------------------
(***************************************************************************)
(* The tool as a machine that reads byte by byte agrees with its definition  *)
(* on the lines of its streams, and ends.                                  *)
(***************************************************************************)
EXTENDS UriSplitTool
CONSTANTS MaxTokens, MaxStreams
VARIABLES ss, t, n
vars == <<ss, t, n>>

\* a URI with everything, a URI, a reference, a newline, no character of a URI
Tokens == {<<97, 58>>, <<115, 58, 47, 47, 117, 64, 104, 58, 56, 47, 112, 47, 63, 113, 35, 102>>, <<98>>, <<NL>>, <<32>>}
RECURSIVE Texts(_)
Texts(k) == IF k = 0 THEN {<<>>} ELSE LET x == Texts(k - 1) IN x \cup {a \o b : a \in x, b \in Tokens}
Streams == {<<>>} \cup {<<x>> : x \in Texts(MaxTokens)}
Init == /\ ss \in UNION {[1..k -> Streams] : k \in 1..MaxStreams} /\ t = TStart(ss) /\ n = 0
Next == ~Ended(t) /\ t' = TStep(t) /\ n' = n + 1 /\ UNCHANGED ss
R == Run(ss)
Agrees == Ended(t) => t.out = R.out /\ (t.exit = 0) = R.ok
\* what was printed so far is the beginning of what is printed in the end
Ordered == IsPrefix(t.out, R.out)
Terminates == n <= MaxStreams * (18 * MaxTokens + 3) + 1
=============================================================================
