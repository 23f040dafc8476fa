----------------------------- MODULE MC_UriPeg ------------------------------
(***************************************************************************)
(* Matching the grammar with the rule combinators, and running the actions,  *)
(* gives exactly what the declarative reading of the grammar gives: for every *)
(* text which begins some URI reference, and that text with one character     *)
(* more, in each of the families below (a family's texts are made of a        *)
(* beginning and pieces).                                                    *)
(***************************************************************************)
EXTENDS UriNfa, UriPeg
P == INSTANCE Peg
CONSTANTS General, Six, Four, Future
VARIABLES f, w, n, sts
vars == <<f, w, n, sts>>

PegRef == File.peg.ref
PegUri == File.peg.uri
Each(X) == {<<c>> : c \in X}
Families ==
  [general |-> [from |-> <<>>, over |-> Each({97, 49, 118, DOT, COLON, SLASH, QMARK, HASH, AT, LBRACKET, RBRACKET, PERCENT, 33, 255}), upto |-> General],
   \* eight groups and the compression of some
   six     |-> [from |-> <<SLASH, SLASH, LBRACKET>>, over |-> Each({49, COLON, RBRACKET}), upto |-> Six],
   parts6  |-> [from |-> <<SLASH, SLASH, LBRACKET>>, upto |-> 10,
                over |-> {<<49, COLON>>, <<COLON>>, <<49, RBRACKET>>, <<RBRACKET>>, <<49, DOT, 49, DOT, 49, DOT, 49, RBRACKET>>}],
   groups  |-> [from |-> <<SLASH, SLASH, LBRACKET, COLON, COLON>>, over |-> Each({70, COLON, RBRACKET}), upto |-> Six - 2],
   four    |-> [from |-> <<SLASH, SLASH, LBRACKET, COLON, COLON>>, over |-> Each({50, 53, DOT, RBRACKET}), upto |-> Four],
   four6   |-> [from |-> <<SLASH, SLASH, LBRACKET, 49, COLON, 49, COLON, COLON>>, over |-> Each({49, 48, COLON, DOT, RBRACKET}), upto |-> Future + 3],
   host    |-> [from |-> <<SLASH, SLASH>>, over |-> Each({49, 50, DOT, AT, COLON, LBRACKET, PERCENT, SLASH}), upto |-> Future],
   future  |-> [from |-> <<115, COLON, SLASH, SLASH, LBRACKET, CHAR_V>>, over |-> Each({49, DOT, COLON, 33, RBRACKET, SLASH}), upto |-> Future]]

Start(k) == RunFrom(RefA, {0}, Families[k].from, 1)
Init == \E k \in DOMAIN Families : f = k /\ w = <<>> /\ n = 0 /\ sts = Start(k)
Next == /\ sts # {} /\ n < Families[f].upto
        /\ \E c \in Families[f].over : w' = w \o c /\ n' = n + 1 /\ sts' = RunFrom(RefA, sts, c, 1)
        /\ f' = f

Text == Families[f].from \o w
Holds(e, want) ==
  LET s == Text
      m == P!Match(<<>>, e, s, 0)
      all == m.ok /\ m.j = Len(s) IN
  /\ all = (want # <<>>)
  /\ all => Made(s, m.acts) = want[1]
RefHolds == Holds(PegRef, IF Accepting(RefA, sts) THEN <<Decompose(Text, Roles(RefA, Text))>> ELSE <<>>)
UriHolds == Holds(PegUri, AbnfSplit(Text))
=============================================================================
