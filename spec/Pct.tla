-------------------------------- MODULE Pct ---------------------------------
(***************************************************************************)
(* Percent-encoding (RFC 3986 section 2.1, WHATWG URL section 1.3) of       *)
(* strings of bytes.                                                       *)
(***************************************************************************)
EXTENDS UriChars, Integers, SequencesExt

\* --- the sets of bytes which are encoded ---------------------------------------
Bytes == 0..255
C0Control == (0..31) \cup (127..255)
\* The library encodes these whatever the set: no component of a URI holds them.
NoneSet         == C0Control \cup {32}
Percent         == {37}
FragmentSet     == NoneSet \cup Percent \cup {34, 60, 62}                      \* " < >
QuerySet        == NoneSet \cup Percent \cup {34, 35, 60, 62}                  \* " # < >
SpecialQuerySet == QuerySet \cup {39}                                          \* '
PathSet         == QuerySet \cup {63, 96, 123, 125}                            \* ? ` { }
UserinfoSet     == PathSet \cup {47, 58, 59, 61, 64, 91, 92, 93, 94, 124}      \* / : ; = @ [ \ ] ^ |
ComponentSet    == UserinfoSet \cup (36..38) \cup {43, 44}                     \* $ % & + ,
FormSet         == ComponentSet \cup {33} \cup (39..41) \cup {126}             \* ! ' ( ) ~
EncSet(name) == CASE name = "none"      -> NoneSet
                  [] name = "fragment"  -> FragmentSet
                  [] name = "query"     -> QuerySet
                  [] name = "special"   -> SpecialQuerySet
                  [] name = "path"      -> PathSet
                  [] name = "userinfo"  -> UserinfoSet
                  [] name = "component" -> ComponentSet
                  [] name = "form"      -> FormSet
SetNames == {"none", "fragment", "query", "special", "path", "userinfo", "component", "form"}

\* --- digits ----------------------------------------------------------------------
UpperHex(v) == IF v < 10 THEN 48 + v ELSE 55 + v
IsHex(c) == c \in HexDig

\* --- encoding ----------------------------------------------------------------------
EncodeByte(set, c) == IF c \in set THEN <<37, UpperHex(c \div 16), UpperHex(c % 16)>> ELSE <<c>>
PctEncode(set, s) == IF \A k \in 1..Len(s) : s[k] \notin set THEN s
                     ELSE FoldLeft(LAMBDA acc, c : acc \o EncodeByte(set, c), <<>>, s)
NeedsEncode(set, s) == \E i \in 1..Len(s) : s[i] \in set

\* --- decoding: scan from left to right ------------------------------------------------
EscapeAt(s, i) == /\ i + 2 <= Len(s) /\ s[i] = 37 /\ IsHex(s[i + 1]) /\ IsHex(s[i + 2])
\* One step of the scanner: where it stands next and what it puts out.
ScanNext(s, i) == IF EscapeAt(s, i) THEN i + 3 ELSE i + 1
ScanOut(s, i)  == IF EscapeAt(s, i) THEN 16 * HexVal(s[i + 1]) + HexVal(s[i + 2]) ELSE s[i]
RECURSIVE DecodeFrom(_, _), Stops(_, _)
DecodeFrom(s, i) == IF i > Len(s) THEN <<>> ELSE <<ScanOut(s, i)>> \o DecodeFrom(s, ScanNext(s, i))
PctDecode(s) == IF \A k \in 1..Len(s) : s[k] # 37 THEN s ELSE DecodeFrom(s, 1)
\* the offsets at which the scanner stops
Stops(s, i) == IF i > Len(s) THEN <<i - 1>> ELSE <<i - 1>> \o Stops(s, ScanNext(s, i))
=============================================================================
