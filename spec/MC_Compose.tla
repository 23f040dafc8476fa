----------------------------- MODULE MC_Compose ------------------------------
(***************************************************************************)
(* Composition, splitting, validity and equality on every value of a        *)
(* bounded family of parts, canonical or not, valid or not.                 *)
(***************************************************************************)
EXTENDS UriModel
CONSTANT MaxSegs

Seg == {<<>>, <<97>>, <<COLON>>, <<HASH>>}
RECURSIVE SegSeqs(_)
SegSeqs(n) == IF n = 0 THEN {<<>>}
              ELSE LET q == SegSeqs(n - 1) IN q \cup {Append(x, y) : x \in {z \in q : Len(z) = n - 1}, y \in Seg}
OptOf(S) == {<<>>} \cup {<<x>> : x \in S}
Auths == {<<>>} \cup {<<x>> : x \in [userinfo : OptOf({<<>>}), host : {<<>>, <<97>>, <<AT>>},
                                     port : OptOf({<<>>, <<49>>, <<97>>})]}
Vals == [scheme : OptOf({<<>>, <<97>>, <<49>>}), auth : Auths, abs : BOOLEAN,
         segs : SegSeqs(MaxSegs), query : OptOf({<<>>, <<HASH>>}), fragment : OptOf({<<SLASH>>})]

VARIABLES p, Ref     \* a value; what its text splits into
vars == <<p, Ref>>
Init == p \in Vals /\ Ref = AbnfSplitRef(Compose(p))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Text == Compose(p)
\* (MC_AbnfDfa: a URI is a URI-reference that has a scheme.)
Uri == IF Ref # <<>> /\ Ref[1].scheme # <<>> THEN Ref ELSE <<>>
\* Splitting inverts composing on the values which splitting can return.
SplitsBack == (Ref # <<>> /\ Ref[1] = p) => Canonical(p)
ValidSplits == Valid(p) => Uri # <<>>
ValidSame == Valid(p) =>
   /\ Uri[1].scheme = p.scheme /\ Uri[1].auth = p.auth
   /\ Uri[1].query = p.query /\ Uri[1].fragment = p.fragment
   /\ PathText(Uri[1].abs, Uri[1].segs) = PathText(p.abs \/ p.auth # <<>>, p.segs)
ValidCanonical == (Valid(p) /\ Canonical(p)) => Uri = <<p>>
\* A value that is what its text says is valid exactly if it has a scheme.
SaysSoIsValid == (Ref = <<p>>) => (Valid(p) <=> p.scheme # <<>>)
ComposeSplit == Ref # <<>> => Compose(Ref[1]) = Text /\ Canonical(Ref[1])
\* Equality does not tell apart what composes differently.
EqCongruent == \A x \in {[p EXCEPT !.abs = ~p.abs], [p EXCEPT !.query = <<>>]} :
                 Eq(p, x) => Compose(x) = Text
=============================================================================
