-------------------------------- MODULE Algo ---------------------------------
(***************************************************************************)
(* find_last and starts_with: by definition, and as scans over a range. The  *)
(* elements are integers; a position in a range is the number of elements    *)
(* before it.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Proj(p, x) == CASE p = "id"     -> x
                [] p = "half"   -> x \div 2
                [] p = "neg"    -> -x
                [] p = "ptr"    -> 3 * x
                [] p = "const"  -> 1
                [] p = "member" -> x
Pred(q, x, y) == CASE q = "eq"  -> x = y
                   [] q = "le"  -> x <= y
                   [] q = "lt"  -> x < y
                   [] q = "any" -> TRUE

\* --- definitions --------------------------------------------------------------------
\* <<from, to>>: the elements from the last one that is equal to v; none if none is.
FindLast(s, v, p) ==
  LET hits == {k \in 1..Len(s) : Proj(p, s[k]) = v} IN
  IF hits = {} THEN <<Len(s), Len(s)>> ELSE <<(CHOOSE k \in hits : \A h \in hits : h <= k) - 1, Len(s)>>
PrefixBy(s, t, q, p1, p2) == /\ Len(t) <= Len(s)
                             /\ \A k \in 1..Len(t) : Pred(q, Proj(p1, s[k]), Proj(p2, t[k]))

\* --- scans ------------------------------------------------------------------------------
\* Forwards: at, the position; found, that of the last hit so far (-1: none).
\* Backwards: at moves down to the first hit.
FStart(s) == [at |-> 0, found |-> -1, end |-> -1]
FStep(s, v, p, f) == IF f.at = Len(s) THEN [f EXCEPT !.end = f.at]
                     ELSE [f EXCEPT !.at = @ + 1, !.found = IF Proj(p, s[f.at + 1]) = v THEN f.at ELSE @]
FResult(f) == <<IF f.found = -1 THEN f.end ELSE f.found, f.end>>
BStart(s) == [at |-> Len(s), found |-> -1, end |-> -1]
BStep(s, v, p, f) == IF f.at = 0 THEN [f EXCEPT !.end = Len(s)]
                     ELSE IF Proj(p, s[f.at]) = v THEN [f EXCEPT !.found = f.at - 1, !.end = Len(s)]
                     ELSE [f EXCEPT !.at = @ - 1]
=============================================================================
