------------------------------ MODULE MC_Calls -------------------------------
(***************************************************************************)
(* Model of Calls: own memory makes every history pure, for every schedule;   *)
(* each of the other arrangements has an impure history with each of the      *)
(* happenings that show it (alone), and none without all of them.             *)
(***************************************************************************)
EXTENDS Calls, TLC

Inv == kind = "own" => PureLog /\ AsAlone
Hidden == did \cap ShownBy[kind] = {} => PureLog /\ AsAlone

\* which pairs of a mistake and a happening have been seen, the happening being the only one (but for "again")
Number == [shared |-> [overlapping |-> 1, nested |-> 2], scratch |-> [nested |-> 3], kept |-> [again |-> 4],
           left |-> [nested |-> 5, abandoned |-> 6], setting |-> [set |-> 7]]
Seen == (kind # "own" /\ ~PureLog) =>
          \A h \in ShownBy[kind] : did \subseteq {h, "again"} => TLCSet(Number[kind][h], TRUE)
ASSUME \A k \in 1..7 : TLCSet(k, FALSE)
EachMistakeShows == \A k \in 1..7 : TLCGet(k)
=============================================================================
