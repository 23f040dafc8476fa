----------------------------- MODULE MC_AbnfAmb -----------------------------
(***************************************************************************)
(* The RFC's decomposition is a function: no string has two accepting runs *)
(* which give one of its characters different roles.  The state is a pair  *)
(* of runs of the position automaton over the same (unbounded) input.      *)
(***************************************************************************)
EXTENDS UriNfa
VARIABLES p, q, differ
vars == <<p, q, differ>>

Role(x) == RefA.role[x]
Init == p = 0 /\ q = 0 /\ differ = FALSE
Next == \E x \in RefA.follow[p], y \in RefA.follow[q] :
          /\ differ \/ x <= y \/ Role(x) # Role(y)     \* symmetry: order equal-role pairs
          /\ RefA.cls[x] \cap RefA.cls[y] # {}
          /\ p' = x /\ q' = y
          /\ differ' = (differ \/ Role(x) # Role(y))
Spec == Init /\ [][Next]_vars
Unambiguous == ~(differ /\ p \in RefA.accept /\ q \in RefA.accept)
=============================================================================
