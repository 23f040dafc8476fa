------------------------------ MODULE UriAbnf -------------------------------
(***************************************************************************)
(* The collected ABNF of RFC 3986 (Appendix A), transcribed as a regular    *)
(* expression whose character positions carry the role they play in the    *)
(* URI.  The expression is turned into a position (Glushkov) automaton:    *)
(* its states are sets of positions, its transitions consume one byte.     *)
(*                                                                         *)
(* The automaton is the specification of which strings are URI references, *)
(* and (through the roles) of how each of them decomposes.                 *)
(***************************************************************************)
EXTENDS UriChars, Integers, TLC, SequencesExt

\* --- regular expressions ----------------------------------------------------
Cls(S, role)   == [k |-> "cls", set |-> S, role |-> role]
Chr(c, role)   == Cls({c}, role)
Cat(es)        == [k |-> "cat", es |-> es]
Alt(es)        == [k |-> "alt", es |-> es]
Star(e)        == [k |-> "star", e |-> e]
Opt(e)         == [k |-> "opt", e |-> e]
Empty          == Cat(<<>>)
Times(n, e)    == Cat([i \in 1..n |-> e])
\* <m>*<n>e
RECURSIVE UpTo(_, _)
UpTo(n, e)     == IF n = 0 THEN Empty ELSE Opt(Cat(<<e, UpTo(n - 1, e)>>))
Rep(m, n, e)   == Cat(<<Times(m, e), UpTo(n - m, e)>>)
Plus(e)        == Cat(<<e, Star(e)>>)

\* --- Appendix A ----------------------------------------------------------------
PctEncoded(r)  == Cat(<<Chr(PERCENT, r), Cls(HexDig, r), Cls(HexDig, r)>>)
PctOr(S, r)    == Alt(<<Cls(S, r), PctEncoded(r)>>)

Scheme         == Cat(<<Cls(Alpha, "scheme"), Star(Cls(SchemeChar, "scheme"))>>)
Userinfo       == Star(PctOr(UserinfoChar, "userinfo"))

H(S)           == Cls(S, "host")
DecOctet       == Alt(<<H(Digit),
                        Cat(<<H(49..57), H(Digit)>>),
                        Cat(<<H({49}), H(Digit), H(Digit)>>),
                        Cat(<<H({50}), H(48..52), H(Digit)>>),
                        Cat(<<H({50}), H({53}), H(48..53)>>)>>)
IPv4           == Cat(<<DecOctet, H({DOT}), DecOctet, H({DOT}), DecOctet, H({DOT}), DecOctet>>)
H16            == Rep(1, 4, H(HexDig))
H16C           == Cat(<<H16, H({COLON})>>)
CC             == Cat(<<H({COLON}), H({COLON})>>)
LS32           == Alt(<<Cat(<<H16, H({COLON}), H16>>), IPv4>>)
\* [ *n( h16 ":" ) h16 ]
Lead(n)        == Opt(Cat(<<UpTo(n, H16C), H16>>))
IPv6           == Alt(<<Cat(<<                Times(6, H16C), LS32>>),
                        Cat(<<         CC,    Times(5, H16C), LS32>>),
                        Cat(<<Lead(0), CC,    Times(4, H16C), LS32>>),
                        Cat(<<Lead(1), CC,    Times(3, H16C), LS32>>),
                        Cat(<<Lead(2), CC,    Times(2, H16C), LS32>>),
                        Cat(<<Lead(3), CC,    H16C,           LS32>>),
                        Cat(<<Lead(4), CC,                    LS32>>),
                        Cat(<<Lead(5), CC,                    H16>>),
                        Cat(<<Lead(6), CC>>)>>)
IPvFuture      == Cat(<<H({CHAR_v, CHAR_V}), Plus(H(HexDig)), H({DOT}),
                        Plus(H(UserinfoChar))>>)
IPLiteral      == Cat(<<H({LBRACKET}), Alt(<<IPv6, IPvFuture>>), H({RBRACKET})>>)
RegName        == Star(PctOr(RegNameChar, "host"))
Host           == Alt(<<IPLiteral, IPv4, RegName>>)
Port           == Star(Cls(Digit, "port"))
Authority      == Cat(<<Opt(Cat(<<Userinfo, Chr(AT, "at")>>)), Host,
                        Opt(Cat(<<Chr(COLON, "portcolon"), Port>>))>>)

Sl             == Chr(SLASH, "slash")        \* a "/" that starts a path segment
Segment        == Star(PctOr(PChar, "seg"))
SegmentNz      == Plus(PctOr(PChar, "seg"))
SegmentNzNc    == Plus(PctOr(SegNcChar, "seg"))
PathAbEmpty    == Star(Cat(<<Sl, Segment>>))
PathAbsolute   == Cat(<<Sl, Opt(Cat(<<SegmentNz, Star(Cat(<<Sl, Segment>>))>>))>>)
PathNoscheme   == Cat(<<SegmentNzNc, Star(Cat(<<Sl, Segment>>))>>)
PathRootless   == Cat(<<SegmentNz, Star(Cat(<<Sl, Segment>>))>>)
AuthAbEmpty    == Cat(<<Chr(SLASH, "authslash"), Chr(SLASH, "authslash"), Authority, PathAbEmpty>>)

HierPart       == Alt(<<AuthAbEmpty, PathAbsolute, PathRootless, Empty>>)
RelativePart   == Alt(<<AuthAbEmpty, PathAbsolute, PathNoscheme, Empty>>)
Query          == Star(PctOr(QueryChar, "query"))
Fragment       == Star(PctOr(QueryChar, "fragment"))
Tails          == Cat(<<Opt(Cat(<<Chr(QMARK, "qmark"), Query>>)),
                        Opt(Cat(<<Chr(HASH, "hash"), Fragment>>))>>)
URI            == Cat(<<Scheme, Chr(COLON, "schemecolon"), HierPart, Tails>>)
RelativeRef    == Cat(<<RelativePart, Tails>>)
URIReference   == Alt(<<URI, RelativeRef>>)

\* --- the position automaton -----------------------------------------------------
\* Glushkov's construction.  Positions are numbered from b+1 in textual order.
\* follow is a sequence (indexed by position - b) of sets of positions.
Unit == [n |-> 0, null |-> TRUE, first |-> {}, last |-> {}, follow |-> <<>>, cls |-> <<>>, role |-> <<>>]

AddFollow(f, b, froms, tos) ==
  [i \in 1..Len(f) |-> IF (b + i) \in froms THEN f[i] \cup tos ELSE f[i]]

CatStep(acc, x, b) ==
  [n      |-> acc.n + x.n,
   null   |-> acc.null /\ x.null,
   first  |-> IF acc.null THEN acc.first \cup x.first ELSE acc.first,
   last   |-> IF x.null THEN acc.last \cup x.last ELSE x.last,
   follow |-> AddFollow(acc.follow, b, acc.last, x.first) \o x.follow,
   cls    |-> acc.cls \o x.cls,
   role   |-> acc.role \o x.role]
AltStep(acc, x) ==
  [n      |-> acc.n + x.n,
   null   |-> acc.null \/ x.null,
   first  |-> acc.first \cup x.first,
   last   |-> acc.last \cup x.last,
   follow |-> acc.follow \o x.follow,
   cls    |-> acc.cls \o x.cls,
   role   |-> acc.role \o x.role]
RECURSIVE Gl(_, _)
Gl(e, b) ==
  CASE e.k = "cls"  -> [n |-> 1, null |-> FALSE, first |-> {b + 1}, last |-> {b + 1},
                        follow |-> <<{}>>, cls |-> <<e.set>>, role |-> <<e.role>>]
    [] e.k = "cat"  -> FoldLeft(LAMBDA acc, x : CatStep(acc, Gl(x, b + acc.n), b), Unit, e.es)
    [] e.k = "alt"  -> FoldLeft(LAMBDA acc, x : AltStep(acc, Gl(x, b + acc.n)),
                                [Unit EXCEPT !.null = FALSE], e.es)
    [] e.k = "opt"  -> [Gl(e.e, b) EXCEPT !.null = TRUE]
    [] e.k = "star" -> LET x == Gl(e.e, b) IN
                       [x EXCEPT !.null = TRUE,
                                 !.follow = AddFollow(x.follow, b, x.last, x.first)]

\* An automaton with its start position 0 made explicit and acceptance as a set,
\* as sequences for serialisation: follow[p + 1] is the follow set of p.
Automaton(e) ==
  LET g == Gl(e, 0) IN
  [n      |-> g.n,
   follow |-> <<g.first>> \o g.follow,
   cls    |-> g.cls,
   role   |-> g.role,
   accept |-> g.last \cup (IF g.null THEN {0} ELSE {})]
=============================================================================
