------------------------------ MODULE GenAbnf -------------------------------
(***************************************************************************)
(* Writes the position automata of the RFC 3986 grammar, and the grammar as  *)
(* an expression of the rule combinators, to the file named by the           *)
(* environment variable ABNF: for UriNfa.tla, and for the conformance       *)
(* harness.                                                                *)
(***************************************************************************)
EXTENDS UriAbnf, Json, IOUtils
P == INSTANCE UriPeg
ASSUME JsonSerialize(IOEnv.ABNF,
  [ref      |-> Automaton(URIReference),
   uri      |-> Automaton(URI),
   scheme   |-> Automaton(Scheme),
   userinfo |-> Automaton(Userinfo),
   host     |-> Automaton(Host),
   port     |-> Automaton(Port),
   segment  |-> Automaton(Segment),
   query    |-> Automaton(Query),
   peg      |-> P!Grammar])
=============================================================================
