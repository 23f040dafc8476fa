------------------------------ MODULE MC_Bytes -------------------------------
(***************************************************************************)
(* The byte stream machine decodes every sequence of up to MaxLen bytes from *)
(* an alphabet that holds all the bytes of the marks as the definition says,  *)
(* and knows the encoding as soon as it is certain.                          *)
(***************************************************************************)
EXTENDS Utf, TLC
CONSTANT MaxLen
Alpha == {0, 65, 187, 191, 216, 220, 239, 254, 255}

VARIABLES s, b, all, ended
vars == <<s, b, all, ended>>
Init == s = <<>> /\ b = BStart /\ all = <<>> /\ ended = FALSE
PushAny == /\ ~ended /\ Len(s) < MaxLen
           /\ \E x \in Alpha : s' = Append(s, x) /\ b' = BPush(b, x) /\ all' = all \o b'.q.out
           /\ UNCHANGED ended
Finish == ~ended /\ ended' = TRUE /\ b' = BEnd(b) /\ all' = all \o b'.q.out /\ UNCHANGED s
Next == PushAny \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == Len(b.held) <= 3 /\ Len(b.q.p) <= 3 /\ Len(b.q.out) <= 4
Refines == ended => BytesDef(s) = [out |-> all, ok |-> b.q.ok] /\ b.enc = Sniff(s) /\ ~BPartial(b)
\* The choice is made at once and stays.
Chosen == b.enc # "unknown" => b.enc = Sniff(s)
Choice == [][b.enc # "unknown" => b'.enc = b.enc]_vars
InTime == (b.enc = "unknown") <=> (~ended /\ MayBeMark(s))
=============================================================================
