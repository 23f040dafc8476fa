------------------------------- MODULE UriPeg -------------------------------
(***************************************************************************)
(* The grammar of Appendix A as an expression of the rule combinators of    *)
(* module Peg, and what its actions make of a text: the way in which the    *)
(* library recognises and takes apart a URI reference.  MC_UriPeg shows     *)
(* that this gives what the declarative reading of the grammar (UriAbnf)     *)
(* gives, greedy and prioritised though it is.                              *)
(***************************************************************************)
EXTENDS UriChars, Integers, SequencesExt

NoLimit   == 999999
C(e)      == <<"C", e, 0>>
Do(e, k)  == <<"C", e, k>>
O(e)      == <<"O", e, 0>>
S(e)      == <<"S", e, 0, NoLimit>>
Rp(e, m, n) == <<"S", e, m, n>>
Ch(c)     == <<"ch", c>>
Seq1(st)  == <<"cat", st>>
OneOf(es)   == <<"cat", <<<<"A", es>>>>>>
Hx        == <<"hx">>
Di        == <<"di">>
List(X)   == <<"pr", SetToSortSeq(X, <)>>

\* The actions.
AScheme == 1   AUserinfo == 2   AHost == 3   APort == 4   ASlash == 5   ADir == 6   ASegment == 7   AInitial == 8
AQuery == 9   AFragment == 10

Unres     == List(Unreserved)
Subs      == List(SubDelims)
Pct       == Seq1(<<C(Ch(PERCENT)), C(Hx), C(Hx)>>)
PPChar    == OneOf(<<Unres, Pct, Subs, Ch(COLON), Ch(AT)>>)
PScheme   == Seq1(<<C(<<"al">>), S(OneOf(<<<<"al">>, Di, Ch(PLUS), Ch(HYPHEN), Ch(DOT)>>))>>)
PUserinfo == Seq1(<<S(OneOf(<<Unres, Pct, Subs, Ch(COLON)>>))>>)
PRegName  == Seq1(<<S(OneOf(<<Unres, Pct, Subs>>))>>)
\* (the longest first: a decimal octet which begins another is not to be preferred to it)
Octet     == OneOf(<<Seq1(<<C(Ch(50)), C(Ch(53)), C(<<"rg", 48, 53>>)>>), Seq1(<<C(Ch(50)), C(<<"rg", 48, 52>>), C(Di)>>),
                   Seq1(<<C(Ch(49)), C(Di), C(Di)>>), Seq1(<<C(<<"rg", 49, 57>>), C(Di)>>), Di>>)
PIPv4     == Seq1(<<C(Octet), C(Ch(DOT)), C(Octet), C(Ch(DOT)), C(Octet), C(Ch(DOT)), C(Octet)>>)
PH16      == Seq1(<<Rp(Hx, 1, 4)>>)
\* (a colon which another follows is not the one of h16 ":": that is left to "::")
PH16C     == Seq1(<<C(PH16), C(Ch(COLON)), <<"N", Ch(COLON)>>>>)
PCC       == Seq1(<<C(Ch(COLON)), C(Ch(COLON))>>)
PLS32     == OneOf(<<Seq1(<<C(PH16), C(Ch(COLON)), C(PH16)>>), PIPv4>>)
PLead(n)  == IF n = 0 THEN O(PH16) ELSE O(Seq1(<<Rp(PH16C, 0, n), C(PH16)>>))
PIPv6     == OneOf(<<Seq1(<<Rp(PH16C, 6, 6), C(PLS32)>>),
                   Seq1(<<C(PCC), Rp(PH16C, 5, 5), C(PLS32)>>),
                   Seq1(<<PLead(0), C(PCC), Rp(PH16C, 4, 4), C(PLS32)>>),
                   Seq1(<<PLead(1), C(PCC), Rp(PH16C, 3, 3), C(PLS32)>>),
                   Seq1(<<PLead(2), C(PCC), Rp(PH16C, 2, 2), C(PLS32)>>),
                   Seq1(<<PLead(3), C(PCC), C(PH16C), C(PLS32)>>),
                   Seq1(<<PLead(4), C(PCC), C(PLS32)>>),
                   Seq1(<<PLead(5), C(PCC), C(PH16)>>),
                   Seq1(<<PLead(6), C(PCC)>>)>>)
PFuture   == Seq1(<<C(Ch(CHAR_v)), Rp(Hx, 1, NoLimit), C(Ch(DOT)), Rp(OneOf(<<Unres, Subs, Ch(COLON)>>), 1, NoLimit)>>)
PLiteral  == Seq1(<<C(Ch(LBRACKET)), C(OneOf(<<PIPv6, PFuture>>)), C(Ch(RBRACKET))>>)
PHost     == OneOf(<<PLiteral, PRegName>>)
PPort     == Seq1(<<S(Di)>>)
PAuthority == Seq1(<<O(Seq1(<<Do(PUserinfo, AUserinfo), C(Ch(AT))>>)), C(Seq1(<<Do(PHost, AHost)>>)),
                     O(Seq1(<<C(Ch(COLON)), Do(PPort, APort)>>))>>)
PSegment  == Seq1(<<S(PPChar)>>)
PSegNz    == Seq1(<<Rp(PPChar, 1, NoLimit)>>)
PSegNc    == Seq1(<<Rp(OneOf(<<Unres, Pct, Subs, Ch(AT)>>), 1, NoLimit)>>)
SlSeg(k)  == Seq1(<<Do(Ch(SLASH), k), Do(PSegment, ASegment)>>)
PAbEmpty  == Seq1(<<S(SlSeg(ASlash))>>)
PAbsolute == Seq1(<<Do(Ch(SLASH), ASlash), O(Seq1(<<Do(PSegNz, ASegment), S(SlSeg(ADir))>>))>>)
PNoscheme == Seq1(<<Do(PSegNc, AInitial), S(SlSeg(ADir))>>)
PRootless == Seq1(<<Do(PSegNz, AInitial), S(SlSeg(ADir))>>)
PEmpty    == Seq1(<<Rp(PPChar, 0, 0)>>)
PAuthAb   == Seq1(<<C(Ch(SLASH)), C(Ch(SLASH)), C(PAuthority), C(PAbEmpty)>>)
PQuery    == Seq1(<<S(OneOf(<<PPChar, Ch(SLASH), Ch(QMARK)>>))>>)
PTails    == <<O(Seq1(<<C(Ch(QMARK)), Do(PQuery, AQuery)>>)), O(Seq1(<<C(Ch(HASH)), Do(PQuery, AFragment)>>))>>
PURI      == Seq1(<<Do(PScheme, AScheme), C(Ch(COLON)), C(OneOf(<<PAuthAb, PAbsolute, PRootless, PEmpty>>))>> \o PTails)
PRelative == Seq1(<<C(OneOf(<<PAuthAb, PAbsolute, PNoscheme, PEmpty>>))>> \o PTails)
PReference == OneOf(<<PURI, PRelative>>)
Grammar   == [uri |-> PURI, ref |-> PReference]

\* --- what the actions make ---------------------------------------------------------
NoParts   == [scheme |-> <<>>, auth |-> <<>>, abs |-> FALSE, segs |-> <<>>, query |-> <<>>, fragment |-> <<>>]
NoAuth    == [userinfo |-> <<>>, host |-> <<>>, port |-> <<>>]
Ensure(p) == IF p.auth = <<>> THEN [p EXCEPT !.auth = <<NoAuth>>] ELSE p
Effect(p, k, t) ==
  CASE k = AScheme   -> [p EXCEPT !.scheme = <<t>>]
    [] k = AUserinfo -> [Ensure(p) EXCEPT !.auth[1].userinfo = <<t>>]
    [] k = AHost     -> [Ensure(p) EXCEPT !.auth[1].host = t]
    [] k = APort     -> [Ensure(p) EXCEPT !.auth[1].port = <<t>>]
    [] k = ASlash    -> [p EXCEPT !.abs = TRUE, !.segs = Append(@, <<>>)]
    [] k = ADir      -> [p EXCEPT !.segs = Append(@, <<>>)]
    [] k = ASegment  -> [p EXCEPT !.segs[Len(p.segs)] = t]
    [] k = AInitial  -> [p EXCEPT !.segs = Append(@, t)]
    [] k = AQuery    -> [p EXCEPT !.query = <<t>>]
    [] k = AFragment -> [p EXCEPT !.fragment = <<t>>]
Made(s, acts) == FoldLeft(LAMBDA p, a : Effect(p, a[1], SubSeq(s, a[2] + 1, a[3])), NoParts, acts)
=============================================================================
