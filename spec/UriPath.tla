------------------------------ MODULE UriPath -------------------------------
(***************************************************************************)
(* Paths: RFC 3986 section 5.2.4 "Remove Dot Segments" as the RFC states   *)
(* it -- a machine which moves characters from an input buffer to an       *)
(* output buffer -- and as an operation on a sequence of segments; section *)
(* 5.2.3 "Merge Paths".                                                    *)
(***************************************************************************)
EXTENDS UriChars

Dot1 == <<DOT>>
Dot2 == <<DOT, DOT>>

\* --- the text of a path ------------------------------------------------------
RECURSIVE JoinSlash(_)
JoinSlash(segs) == IF segs = <<>> THEN <<>>
                   ELSE IF Len(segs) = 1 THEN segs[1]
                   ELSE segs[1] \o <<SLASH>> \o JoinSlash(Tail(segs))
\* A path of no segments is the empty text whether or not it is "absolute".
PathText(abs, segs) == (IF abs /\ segs # <<>> THEN <<SLASH>> ELSE <<>>) \o JoinSlash(segs)

\* --- section 5.2.4, one step of the loop of step 2 ------------------------------
\* in, out: the input and output buffers.
DropLast(out) ==   \* remove the last segment and its preceding "/" (if any)
  LET cut == {i \in 1..Len(out) : out[i] = SLASH}
      at  == IF cut = {} THEN 1 ELSE CHOOSE i \in cut : \A j \in cut : i >= j
  IN SubSeq(out, 1, at - 1)
RfcStep(in, out) ==
  CASE StartsWith(in, <<DOT, DOT, SLASH>>) -> <<SeqDrop(in, 3), out>>                       \* 2A
    [] StartsWith(in, <<DOT, SLASH>>)      -> <<SeqDrop(in, 2), out>>
    [] StartsWith(in, <<SLASH, DOT, SLASH>>) -> <<SeqDrop(in, 2), out>>                     \* 2B
    [] in = <<SLASH, DOT>>                 -> <<<<SLASH>>, out>>
    [] StartsWith(in, <<SLASH, DOT, DOT, SLASH>>) -> <<SeqDrop(in, 3), DropLast(out)>>      \* 2C
    [] in = <<SLASH, DOT, DOT>>            -> <<<<SLASH>>, DropLast(out)>>
    [] in \in {Dot1, Dot2}                 -> <<<<>>, out>>                                 \* 2D
    [] OTHER -> LET e == FindFrom(in, IF in[1] = SLASH THEN 2 ELSE 1, {SLASH}) IN          \* 2E
                <<SubSeq(in, e, Len(in)), out \o SubSeq(in, 1, e - 1)>>
RECURSIVE RfcLoop(_, _)
RfcLoop(in, out) == IF in = <<>> THEN out
                    ELSE LET n == RfcStep(in, out) IN RfcLoop(n[1], n[2])
RfcRemoveDots(text) == RfcLoop(text, <<>>)

\* --- on segments ----------------------------------------------------------------
IsDot(seg) == seg = Dot1 \/ seg = Dot2
RECURSIVE RdsLoop(_, _, _)
RdsLoop(segs, i, out) ==
  IF i > Len(segs) THEN out
  ELSE RdsLoop(segs, i + 1,
         CASE segs[i] = Dot1 -> out
           [] segs[i] = Dot2 -> IF out = <<>> THEN out ELSE SubSeq(out, 1, Len(out) - 1)
           [] OTHER          -> Append(out, segs[i]))
\* A path which ends in a dot segment denotes a directory: it ends in "/".
RemoveDots(segs) ==
  LET out == RdsLoop(segs, 1, <<>>) IN
  IF segs # <<>> /\ IsDot(segs[Len(segs)]) THEN Append(out, <<>>) ELSE out

\* --- section 5.2.3 ---------------------------------------------------------------
\* on texts
MergeText(baseHasAuth, base, ref) ==
  IF baseHasAuth /\ base = <<>> THEN <<SLASH>> \o ref
  ELSE LET cut == {i \in 1..Len(base) : base[i] = SLASH} IN
       IF cut = {} THEN ref
       ELSE SubSeq(base, 1, CHOOSE i \in cut : \A j \in cut : i >= j) \o ref

\* --- as a filesystem path (POSIX): append the segments one by one ------------------
FsAppend(p, seg) ==
  IF seg # <<>> /\ seg[1] = SLASH THEN seg
  ELSE IF p # <<>> /\ p[Len(p)] # SLASH THEN p \o <<SLASH>> \o seg
  ELSE p \o seg
RECURSIVE FsFold(_, _, _)
FsFold(p, segs, i) == IF i > Len(segs) THEN p ELSE FsFold(FsAppend(p, segs[i]), segs, i + 1)
FsText(abs, segs) == FsFold(IF abs THEN <<SLASH>> ELSE <<>>, segs, 1)
=============================================================================
