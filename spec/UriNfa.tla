------------------------------- MODULE UriNfa -------------------------------
(***************************************************************************)
(* Running the position automata of UriAbnf.  TLC re-evaluates a constant   *)
(* as large as the automaton each time it is mentioned unless it comes from *)
(* a file, so GenAbnf.tla writes the automata that UriAbnf.tla defines to   *)
(* the JSON file named by the environment variable ABNF, and this module    *)
(* reads them back.                                                        *)
(***************************************************************************)
EXTENDS UriChars, Integers, TLC, SequencesExt, Json, IOUtils

LoadA(A) == [n      |-> A.n,
             follow |-> [p \in 0..A.n |-> ToSet(A.follow[p + 1])],
             cls    |-> [p \in 1..A.n |-> ToSet(A.cls[p])],
             role   |-> A.role,
             accept |-> ToSet(A.accept)]
File == JsonDeserialize(IOEnv.ABNF)
RefA == LoadA(File.ref)      \* URI-reference
UriA == LoadA(File.uri)      \* URI
\* the components
SchemeA   == LoadA(File.scheme)
UserinfoA == LoadA(File.userinfo)
HostA     == LoadA(File.host)
PortA     == LoadA(File.port)
SegmentA  == LoadA(File.segment)
QueryA    == LoadA(File.query)

StepSet(A, S, c)  == {q \in UNION {A.follow[p] : p \in S} : c \in A.cls[q]}
Accepting(A, S)   == S \cap A.accept # {}

\* --- running a string -----------------------------------------------------------
RECURSIVE RunFrom(_, _, _, _)
RunFrom(A, S, s, i) == IF i > Len(s) \/ S = {} THEN S
                       ELSE RunFrom(A, StepSet(A, S, s[i]), s, i + 1)
Accepts(A, s) == Accepting(A, RunFrom(A, {0}, s, 1))

\* The roles of the characters of an accepted string: forward sets, then a
\* backward pass which keeps only positions on an accepting run.
RECURSIVE Fwd(_, _, _, _), Bwd(_, _, _, _)
Fwd(A, s, i, acc) == IF i > Len(s) THEN acc
                     ELSE Fwd(A, s, i + 1, Append(acc, StepSet(A, acc[i], s[i])))
\* acc: live sets for i+1..Len(s)
Bwd(A, f, i, acc) ==
  IF i = 0 THEN acc
  ELSE LET live == {p \in f[i + 1] : A.follow[p] \cap acc[1] # {}} IN
       Bwd(A, f, i - 1, <<live>> \o acc)
RoleSets(A, s) ==
  IF s = <<>> THEN <<>>
  ELSE LET f == Fwd(A, s, 1, <<{0}>>)
           n == Len(s)
           live == Bwd(A, f, n - 1, <<f[n + 1] \cap A.accept>>)
       IN [i \in 1..n |-> {A.role[p] : p \in live[i]}]
\* Defined for accepted strings; UriAbnfUnambiguous shows each set is a singleton.
Roles(A, s) == LET r == RoleSets(A, s) IN [i \in 1..Len(s) |-> CHOOSE x \in r[i] : TRUE]

\* --- decomposition --------------------------------------------------------------
\* An optional component is <<>> (absent) or <<value>>.
Pick(s, rl, r) == LET idx == {i \in 1..Len(s) : rl[i] = r} IN
                  IF idx = {} THEN <<>>
                  ELSE SubSeq(s, CHOOSE i \in idx : \A j \in idx : i <= j,
                                 CHOOSE i \in idx : \A j \in idx : i >= j)
Has(rl, r) == \E i \in 1..Len(rl) : rl[i] = r

RECURSIVE SegsFrom(_, _, _, _)
SegsFrom(s, rl, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE CASE rl[i] = "slash" -> SegsFrom(s, rl, i + 1, Append(acc, <<>>))
         [] rl[i] = "seg"   -> SegsFrom(s, rl, i + 1,
                                 IF acc = <<>> THEN <<<<s[i]>>>>
                                 ELSE [acc EXCEPT ![Len(acc)] = Append(@, s[i])])
         [] OTHER           -> SegsFrom(s, rl, i + 1, acc)
Absolute(rl) == \E i \in 1..Len(rl) : rl[i] = "slash" /\ \A j \in 1..(i-1) : rl[j] # "seg"

Decompose(s, rl) ==
  [scheme   |-> IF Has(rl, "scheme") THEN <<Pick(s, rl, "scheme")>> ELSE <<>>,
   auth     |-> IF Has(rl, "authslash")
                THEN <<[userinfo |-> IF Has(rl, "at") THEN <<Pick(s, rl, "userinfo")>> ELSE <<>>,
                        host     |-> Pick(s, rl, "host"),
                        port     |-> IF Has(rl, "portcolon") THEN <<Pick(s, rl, "port")>> ELSE <<>>]>>
                ELSE <<>>,
   abs      |-> Absolute(rl),
   segs     |-> SegsFrom(s, rl, 1, <<>>),
   query    |-> IF Has(rl, "qmark") THEN <<Pick(s, rl, "query")>> ELSE <<>>,
   fragment |-> IF Has(rl, "hash") THEN <<Pick(s, rl, "fragment")>> ELSE <<>>]

AbnfSplitRef(s) == IF Accepts(RefA, s) THEN <<Decompose(s, Roles(RefA, s))>> ELSE <<>>
AbnfSplit(s)    == IF Accepts(UriA, s) THEN <<Decompose(s, Roles(UriA, s))>> ELSE <<>>
=============================================================================
