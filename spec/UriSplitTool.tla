----------------------------- MODULE UriSplitTool -----------------------------
(***************************************************************************)
(* The uri-split tool: it reads lines from its standard input or from each   *)
(* of the files named by its arguments in turn, and reports the components   *)
(* of each line.  It stops at the first line which is no URI or file which  *)
(* cannot be opened.                                                       *)
(*                                                                         *)
(* An input is a sequence of streams: <<>> for a file which cannot be opened, *)
(* or <<bytes>>.                                                            *)
(***************************************************************************)
EXTENDS UriModel

NL == 10
QUOTE == 34
\* --- what is printed for a line ----------------------------------------------------
LUri      == <<85, 82, 73, 58, 32>>     \* "URI: "
LScheme   == <<32, 115, 99, 104, 101, 109, 101, 58, 32>>     \* " scheme: "
LUserinfo == <<32, 117, 115, 101, 114, 105, 110, 102, 111, 58, 32>>     \* " userinfo: "
LHost     == <<32, 104, 111, 115, 116, 58, 32>>     \* " host: "
LPort     == <<32, 112, 111, 114, 116, 58, 32>>     \* " port: "
LPath     == <<32, 112, 97, 116, 104, 58, 32>>     \* " path: "
LQuery    == <<32, 113, 117, 101, 114, 121, 58, 32>>     \* " query: "
LFragment == <<32, 102, 114, 97, 103, 109, 101, 110, 116, 58, 32>>     \* " fragment: "
LNone     == <<78, 111, 110, 101>>     \* "None"
Quoted(s) == <<QUOTE>> \o s \o <<QUOTE>>
ValueOrNone(o) == IF o = <<>> THEN LNone ELSE Quoted(o[1])
Row(label, o) == label \o ValueOrNone(o) \o <<NL>>
Heading(line) == LUri \o line \o <<NL>>
Report1(p) ==
  Row(LScheme, p.scheme)
  \o Row(LUserinfo, IF p.auth = <<>> THEN <<>> ELSE p.auth[1].userinfo)
  \o Row(LHost, IF p.auth = <<>> THEN <<>> ELSE <<p.auth[1].host>>)
  \o Row(LPort, IF p.auth = <<>> THEN <<>> ELSE p.auth[1].port)
  \o Row(LPath, <<PathText(p.abs, p.segs)>>)
  \o Row(LQuery, p.query)
  \o Row(LFragment, p.fragment)

\* --- by definition ------------------------------------------------------------------
\* Lines end with a newline; the last one need not.
RECURSIVE Lines(_)
Lines(s) == IF s = <<>> THEN <<>>
            ELSE LET e == FindFrom(s, 1, {NL}) IN <<SubSeq(s, 1, e - 1)>> \o Lines(SubSeq(s, e + 1, Len(s)))
\* [out |-> text, ok |-> whether to go on]
RECURSIVE DoLines(_, _), DoStreams(_, _)
DoLines(ls, acc) ==
  IF ls = <<>> \/ ~acc.ok THEN acc
  ELSE LET r == AbnfSplitRef(Head(ls))
           u == r # <<>> /\ r[1].scheme # <<>>
       IN DoLines(Tail(ls), [out |-> acc.out \o Heading(Head(ls)) \o (IF u THEN Report1(r[1]) ELSE <<>>), ok |-> u])
DoStreams(ss, acc) ==
  IF ss = <<>> \/ ~acc.ok THEN acc
  ELSE IF Head(ss) = <<>> THEN [acc EXCEPT !.ok = FALSE]
  ELSE DoStreams(Tail(ss), DoLines(Lines(Head(ss)[1]), acc))
Run(ss) == DoStreams(ss, [out |-> <<>>, ok |-> TRUE])

\* --- the machine ----------------------------------------------------------------------
\* ss: the streams not yet opened; open: <<>> or <<what is not yet read>>; line: what
\* was read of a line; any: whether that is a line (even an empty one).
TStart(ss) == [ss |-> ss, open |-> <<>>, line |-> <<>>, any |-> FALSE, out |-> <<>>, exit |-> -1]
Ended(t) == t.exit # -1
TLine(t) == LET r == AbnfSplit(t.line)
                h == [t EXCEPT !.out = @ \o Heading(t.line), !.line = <<>>, !.any = FALSE]
            IN IF r = <<>> THEN [h EXCEPT !.exit = 1] ELSE [h EXCEPT !.out = @ \o Report1(r[1])]
TStep(t) ==
  IF t.open = <<>>
  THEN IF t.ss = <<>> THEN [t EXCEPT !.exit = 0]
       ELSE IF Head(t.ss) = <<>> THEN [t EXCEPT !.exit = 1]
       ELSE [t EXCEPT !.open = Head(t.ss), !.ss = Tail(t.ss)]
  ELSE IF t.open[1] = <<>>
  THEN IF t.any THEN TLine(t) ELSE [t EXCEPT !.open = <<>>]
  ELSE LET c == Head(t.open[1])
           n == [t EXCEPT !.open = <<Tail(t.open[1])>>] IN
       IF c = NL THEN TLine(n) ELSE [n EXCEPT !.line = Append(@, c), !.any = TRUE]
=============================================================================
