------------------------------ MODULE UriChars ------------------------------
(***************************************************************************)
(* The character repertoire of RFC 3986.  A string is a sequence of byte   *)
(* values (0..255): TLA+ strings cannot be indexed in TLC and the library  *)
(* under test works on arbitrary bytes.  Appendix A of the RFC is the       *)
(* source of each definition.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Byte == 0..255

Digit  == 48..57                        \* "0".."9"
Upper  == 65..90
Lower  == 97..122
Alpha  == Upper \cup Lower
HexDig == Digit \cup (65..70) \cup (97..102)

\* Individual characters, named after the RFC's prose.
HASH == 35      PERCENT == 37   PLUS == 43     HYPHEN == 45   DOT == 46
SLASH == 47     COLON == 58     QMARK == 63    AT == 64       LBRACKET == 91
RBRACKET == 93  UNDERSCORE == 95               TILDE == 126
CHAR_v == 118   CHAR_V == 86

\* sub-delims = "!" / "$" / "&" / "'" / "(" / ")" / "*" / "+" / "," / ";" / "="
SubDelims  == {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
GenDelims  == {COLON, SLASH, QMARK, HASH, LBRACKET, RBRACKET, AT}
Reserved   == SubDelims \cup GenDelims
\* unreserved = ALPHA / DIGIT / "-" / "." / "_" / "~"
Unreserved == Alpha \cup Digit \cup {HYPHEN, DOT, UNDERSCORE, TILDE}
SchemeChar == Alpha \cup Digit \cup {PLUS, HYPHEN, DOT}

\* The characters (other than "%") allowed in each component.
RegNameChar  == Unreserved \cup SubDelims
UserinfoChar == RegNameChar \cup {COLON}
PChar        == RegNameChar \cup {COLON, AT}
SegNcChar    == RegNameChar \cup {AT}
QueryChar    == PChar \cup {SLASH, QMARK}

ToLower(c) == IF c \in Upper THEN c + 32 ELSE c
HexVal(c)  == IF c \in Digit THEN c - 48 ELSE ToLower(c) - 87   \* c \in HexDig

\* --- sequences -----------------------------------------------------------
SeqTake(s, n) == SubSeq(s, 1, n)
SeqDrop(s, n) == SubSeq(s, n + 1, Len(s))
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
\* The least index in i..Len(s) whose element is in C, or Len(s)+1.
RECURSIVE FindFrom(_, _, _)
FindFrom(s, i, C) == IF i > Len(s) THEN i
                     ELSE IF s[i] \in C THEN i ELSE FindFrom(s, i + 1, C)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* A sequence which matches *( C / pct-encoded ).
RECURSIVE PctRunFrom(_, _, _)
PctRunFrom(s, i, C) ==
  IF i > Len(s) THEN TRUE
  ELSE IF s[i] = PERCENT
       THEN i + 2 <= Len(s) /\ s[i+1] \in HexDig /\ s[i+2] \in HexDig
            /\ PctRunFrom(s, i + 3, C)
       ELSE s[i] \in C /\ PctRunFrom(s, i + 1, C)
PctRun(s, C) == PctRunFrom(s, 1, C)

AllIn(s, C) == \A i \in 1..Len(s) : s[i] \in C
=============================================================================
