----------------------------- MODULE PartsCodec ------------------------------
(***************************************************************************)
(* encode() and decode() of parts: each component is transformed by its     *)
(* own rule.  A value of parts is written as in module UriModel.            *)
(***************************************************************************)
EXTENDS Pct, Punycode, Utf, TLC

\* --- code points between modules Utf (integers) and Punycode (Big) ----------------
BigOf(c) == FromNat(c)
\* the UTF-8 of a code point; what is no scalar value becomes U+FFFD
Utf8Of(big) == IF Lt(big, FromNat(1114112)) /\ Scalar(ToNat(big)) THEN Enc8(ToNat(big)) ELSE Enc8(FFFD)

\* --- the host -----------------------------------------------------------------------
\* Splits at each "." : one label more than there are dots.
RECURSIVE Labels(_)
Labels(s) == LET e == FindFrom(s, 1, {DOT}) IN
             IF e > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, e - 1)>> \o Labels(SubSeq(s, e + 1, Len(s)))
RECURSIVE Dotted(_)
Dotted(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<DOT>> \o Dotted(Tail(ls))
XnPrefix == <<120, 110, 45, 45>>

\* (TLCEval: TLC evaluates a function once, not at each application)
EncodeLabel(s) == IF \A k \in 1..Len(s) : s[k] < 128 THEN s ELSE
                  LET cps == DecodeRun(8, s).out
                      bigs == TLCEval([k \in 1..Len(cps) |-> BigOf(cps[k])])
                  IN IF AllBasic(bigs) THEN s ELSE XnPrefix \o PunyEncode(bigs)
HostEncode(s) == LET ls == Labels(s) IN Dotted(TLCEval([k \in 1..Len(ls) |-> EncodeLabel(ls[k])]))

\* [st |-> "ok", out |-> text] or an error
DecodeLabel(s) == IF ~StartsWith(s, XnPrefix) THEN [st |-> "ok", out |-> s]
                  ELSE LET d == PunyDecode(SeqDrop(s, 4)) IN
                       IF d.st # "ok" THEN [st |-> d.st, out |-> <<>>]
                       ELSE [st |-> "ok", out |-> FoldLeft(LAMBDA acc, c : acc \o Utf8Of(c), <<>>, d.out)]
HostDecode(s) == LET ls == Labels(s)
                     ds == TLCEval([k \in 1..Len(ls) |-> DecodeLabel(ls[k])])
                     bad == {k \in 1..Len(ls) : ds[k].st # "ok"}
                 IN IF bad # {} THEN [st |-> ds[CHOOSE k \in bad : \A j \in bad : k <= j].st, out |-> <<>>]
                    ELSE [st |-> "ok", out |-> Dotted(TLCEval([k \in 1..Len(ls) |-> ds[k].out]))]

\* --- all components -------------------------------------------------------------------
MapOpt(F(_), o) == IF o = <<>> THEN <<>> ELSE <<F(o[1])>>
\* Applies a function to each component: U to userinfo, H to the host, S to segments ...
EncNone(s) == PctEncode(NoneSet, s)
EncUser(s) == PctEncode(UserinfoSet, s)
EncPath(s) == PctEncode(PathSet, s)
EncQuery(s) == PctEncode(QuerySet, s)
EncFrag(s) == PctEncode(FragmentSet, s)
EncodeParts(p) ==
  [scheme   |-> MapOpt(EncNone, p.scheme),
   auth     |-> IF p.auth = <<>> THEN <<>>
                ELSE <<[userinfo |-> MapOpt(EncUser, p.auth[1].userinfo), host |-> HostEncode(p.auth[1].host),
                        port |-> MapOpt(EncNone, p.auth[1].port)]>>,
   abs      |-> p.abs,
   segs     |-> [k \in 1..Len(p.segs) |-> EncPath(p.segs[k])],
   query    |-> MapOpt(EncQuery, p.query),
   fragment |-> MapOpt(EncFrag, p.fragment)]
\* [st |-> "ok", p |-> parts] or an error
DecodeParts(p) ==
  LET h == IF p.auth = <<>> THEN [st |-> "ok", out |-> <<>>] ELSE HostDecode(p.auth[1].host) IN
  IF h.st # "ok" THEN [st |-> h.st, p |-> <<>>]
  ELSE [st |-> "ok",
        p  |-> <<[scheme   |-> MapOpt(PctDecode, p.scheme),
                  auth     |-> IF p.auth = <<>> THEN <<>>
                               ELSE <<[userinfo |-> MapOpt(PctDecode, p.auth[1].userinfo), host |-> h.out,
                                       port |-> MapOpt(PctDecode, p.auth[1].port)]>>,
                  abs      |-> p.abs,
                  segs     |-> [k \in 1..Len(p.segs) |-> PctDecode(p.segs[k])],
                  query    |-> MapOpt(PctDecode, p.query),
                  fragment |-> MapOpt(PctDecode, p.fragment)]>>]

\* --- what is guaranteed -----------------------------------------------------------------
\* decode() inverts encode() for these: the host is UTF-8 none of whose labels
\* looks encoded; neither scheme nor port (where "%" is not encoded) has an escape.
NoPct(o) == o = <<>> \/ \A k \in 1..Len(o[1]) : o[1][k] # 37
Invertible(p) == /\ NoPct(p.scheme)
                 /\ p.auth # <<>> => /\ NoPct(p.auth[1].port)
                                     /\ DecodeRun(8, p.auth[1].host).ok
                                     /\ \A k \in 1..Len(Labels(p.auth[1].host)) :
                                          ~StartsWith(Labels(p.auth[1].host)[k], XnPrefix)
=============================================================================
