------------------------------- MODULE MC_Utf --------------------------------
(***************************************************************************)
(* The decoder, run on every sequence of up to MaxLen code units from an     *)
(* alphabet with the ends of every range that matters, does what the         *)
(* definition says; what it puts out is well-formed in every form.           *)
(***************************************************************************)
EXTENDS Utf, TLC
CONSTANTS MaxLen8, MaxLen16

U8 == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
U16 == {0, 65, 55295, 55296, 56319, 56320, 57343, 57344, 65533, 65535}
U32 == {0, 65, 55295, 55296, 57343, 57344, 65536, 1114111, 1114112, 2147483647, -1, -2147483647 - 1}
Alpha(f) == CASE f = 8 -> U8 [] f = 16 -> U16 [] f = 32 -> U32
Most(f) == IF f = 8 THEN MaxLen8 ELSE IF f = 16 THEN MaxLen16 ELSE 3

VARIABLES f, s, q, all, ended
vars == <<f, s, q, all, ended>>
Init == f \in Forms /\ s = <<>> /\ q = Start(TRUE) /\ all = <<>> /\ ended = FALSE
PushAny == /\ ~ended /\ Len(s) < Most(f)
           /\ \E u \in Alpha(f) : s' = Append(s, u) /\ q' = Push(f, q, u) /\ all' = all \o q'.out
           /\ UNCHANGED <<f, ended>>
Finish == ~ended /\ ended' = TRUE /\ q' = End(q) /\ all' = all \o q'.out /\ UNCHANGED <<f, s>>
Next == PushAny \/ Finish
Spec == Init /\ [][Next]_vars

\* one step gives at most two code points; a unit never waits unless it begins one
TypeOK == Len(q.out) <= 2 /\ Len(q.p) <= 3 /\ (q.p # <<>> => Begins(f, q.p) /\ ~Is(f, q.p))
Refines == ended => DecodeDef(f, s) = [out |-> all, ok |-> q.ok] /\ q.p = <<>>
Whole == DecodeRun(f, s) = DecodeDef(f, s)
AllScalar == \A k \in 1..Len(all) : Scalar(all[k])
\* well-formed text is what encoding gives, and decodes to what was encoded
Exact == ended => (q.ok <=> EncAll(f, all) = s)
\* What was put out survives any form.
Transcodes == ended => \A g \in Forms : DecodeRun(g, EncAll(g, all)) = [out |-> all, ok |-> TRUE]
=============================================================================
