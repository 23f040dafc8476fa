--------------------------- MODULE MC_RemoveDots ----------------------------
(***************************************************************************)
(* RFC 3986 section 5.2.4 as a state machine over its two buffers, started  *)
(* from every path text of a bounded length over "/", "." and "a" and from  *)
(* every sequence of segments.  Checked: the machine terminates; on rooted  *)
(* paths it computes what RemoveDots computes on the segments; and the      *)
(* guarantees that the implementation's callers rely on.                    *)
(***************************************************************************)
EXTENDS UriPath, TLC
CONSTANT MaxSegs

VARIABLES in, out, segs, abs
vars == <<in, out, segs, abs>>

Seg == {<<>>, Dot1, Dot2, <<DOT, DOT, DOT>>, <<97>>, <<98, DOT>>}
RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<<>>}
               ELSE LET s == SeqsUpTo(n - 1) IN s \cup {Append(x, y) : x \in {z \in s : Len(z) = n - 1}, y \in Seg}

Init == /\ segs \in SeqsUpTo(MaxSegs)
        /\ abs \in BOOLEAN
        /\ in = PathText(abs, segs)
        /\ out = <<>>
Next == /\ in # <<>>
        /\ LET n == RfcStep(in, out) IN in' = n[1] /\ out' = n[2]
        /\ UNCHANGED <<segs, abs>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == RemoveDots(segs)

\* Each step consumes input or (2B, 2C at the end) shortens what remains.
Decreases == [][Len(in') < Len(in)]_vars
Terminates == <>(in = <<>>)
\* The RFC's result is the text of the segment algorithm's result.
Agrees == (in = <<>> /\ abs /\ segs # <<>>) => out = PathText(TRUE, Result)
\* ... which is also the algorithm used for rootless paths.
Rootless == (in = <<>> /\ ~abs /\ segs # <<>>) =>
               PathText(FALSE, Result) = Tail(RfcRemoveDots(<<SLASH>> \o JoinSlash(segs)))
NoDots == \A k \in 1..Len(Result) : ~IsDot(Result[k])
Shorter == Len(Result) <= Len(segs) /\ (segs = <<>> <=> Result = <<>>)
Idempotent == RemoveDots(Result) = Result
\* The other segments keep their order: the result without a trailing empty
\* segment is a subsequence of the input.
RECURSIVE IsSubseq(_, _)
IsSubseq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                  ELSE IF a[1] = b[1] THEN IsSubseq(Tail(a), Tail(b)) ELSE IsSubseq(a, Tail(b))
Order == LET r == Result IN
         IsSubseq(IF segs # <<>> /\ IsDot(segs[Len(segs)]) THEN SubSeq(r, 1, Len(r) - 1) ELSE r, segs)
DirStaysDir == (segs # <<>> /\ (IsDot(segs[Len(segs)]) \/ segs[Len(segs)] = <<>>))
               => Result[Len(Result)] = <<>>
=============================================================================
