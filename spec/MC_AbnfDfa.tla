----------------------------- MODULE MC_AbnfDfa -----------------------------
(***************************************************************************)
(* The language automaton of URI-reference explored as a state machine:    *)
(* one state per set of grammar positions, one step per input character    *)
(* (one representative of each class of bytes which the grammar does not    *)
(* tell apart).  Checks sanity invariants on every reachable state.         *)
(***************************************************************************)
EXTENDS UriNfa

VARIABLES S,      \* RefA positions reached by the input so far
          U       \* UriA positions reached by the same input
vars == <<S, U>>

\* The positions that each byte can occupy.
SigOf  == [c \in Byte |-> {p \in 1..RefA.n : c \in RefA.cls[p]}]
Reps   == LET sig == SigOf IN {c \in Byte : \A d \in 0..(c - 1) : sig[d] # sig[c]}

Init == S = {0} /\ U = {0}
Next == \E c \in Reps : S' = StepSet(RefA, S, c) /\ U' = StepSet(UriA, U, c)
Spec == Init /\ [][Next]_vars

\* A string is a URI exactly if it is a URI-reference that has a scheme.
UriIsRefWithScheme ==
  Accepting(UriA, U) <=> \E p \in S \cap RefA.accept : p \in 1..UriA.n
\* (the positions of URI come first in URI-reference = URI / relative-ref, and
\* the two alternatives have no string in common:)
Disjoint ==
  ~(  (\E p \in S \cap RefA.accept : p \in 1..UriA.n)
   /\ (\E p \in S \cap RefA.accept : p \notin 1..UriA.n))
\* Characters outside the URI repertoire kill every run.
Repertoire == LET sig == SigOf IN \A c \in Byte \ (Unreserved \cup Reserved \cup {PERCENT}) : sig[c] = {}

Once == (S = {0}) => Repertoire
=============================================================================
