------------------------------- MODULE MC_Pct --------------------------------
(***************************************************************************)
(* The scanner as a transition system, run on every string up to MaxLen     *)
(* over an alphabet with a byte of each kind; and the properties of          *)
(* encoding and decoding.                                                    *)
(***************************************************************************)
EXTENDS Pct, FiniteSets
CONSTANT MaxLen

Alphabet == {37, 52, 49, 97, 70, 103, 200, 46}   \* % 4 1 a F g (byte 200) .
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>}
              ELSE LET q == Strings(n - 1) IN q \cup {Append(x, y) : x \in {z \in q : Len(z) = n - 1}, y \in Alphabet}

VARIABLES s, i, out
vars == <<s, i, out>>
Init == s \in Strings(MaxLen) /\ i = 1 /\ out = <<>>
Scan == i <= Len(s) /\ i' = ScanNext(s, i) /\ out' = Append(out, ScanOut(s, i)) /\ UNCHANGED s
Spec == Init /\ [][Scan]_vars /\ WF_vars(Scan)

\* The scanner does not overlap escapes and does not miss one, because no
\* escape begins inside another: it decodes exactly the positions which look
\* like escapes.
Declarative == LET esc == {k \in 1..Len(s) : EscapeAt(s, k)}
                   inside == {k \in 1..Len(s) : (k - 1) \in esc \/ (k - 2) \in esc}
               IN i <= Len(s) => i \notin inside
Progress == i <= Len(s) + 1
AtEnd == i > Len(s)
Done == AtEnd => out = PctDecode(s) /\ Len(out) <= Len(s)
               /\ (out = s <=> \A k \in 1..Len(s) : ~EscapeAt(s, k))
Terminates == <>AtEnd
\* encoding
ASSUME NamedContainNone == \A n \in SetNames : NoneSet \subseteq EncSet(n)
ASSUME Chain == /\ FragmentSet \subseteq QuerySet /\ QuerySet \subseteq SpecialQuerySet /\ QuerySet \subseteq PathSet
                /\ PathSet \subseteq UserinfoSet /\ UserinfoSet \subseteq ComponentSet /\ ComponentSet \subseteq FormSet
ASSUME NeverUnreserved == \A n \in SetNames : \A c \in (48..57) \cup (65..90) \cup (97..122) \cup {45, 46, 95} : c \notin EncSet(n)
RoundTrip == i = 1 => \A n \in SetNames : LET e == PctEncode(EncSet(n), s) IN
   /\ n # "none" => PctDecode(e) = s
   /\ \A k \in 1..Len(e) : e[k] \in EncSet(n) => e[k] = 37 /\ (n # "none" => EscapeAt(e, k))
   /\ NeedsEncode(EncSet(n), s) <=> e # s
=============================================================================
