------------------------------- MODULE MC_Algo -------------------------------
(* Both scans of module Algo find what the definition says; prefixes are an  *)
(* order.                                                                  *)
EXTENDS Algo
CONSTANTS MaxLen
VARIABLES s, v, p, f, b
vars == <<s, v, p, f, b>>
Seqs == UNION {[1..k -> 0..2] : k \in 0..MaxLen}
Init == s \in Seqs /\ v \in -2..3 /\ p \in {"id", "half", "neg", "ptr", "const"} /\ f = FStart(s) /\ b = BStart(s)
Next == \/ f.end = -1 /\ f' = FStep(s, v, p, f) /\ UNCHANGED <<s, v, p, b>>
        \/ b.end = -1 /\ b' = BStep(s, v, p, b) /\ UNCHANGED <<s, v, p, f>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Found == /\ f.end # -1 => FResult(f) = FindLast(s, v, p)
         /\ b.end # -1 => FResult(b) = FindLast(s, v, p)
Ends == <>(f.end # -1 /\ b.end # -1)
Order == s = <<>> \/
         /\ PrefixBy(s, s, "eq", "id", "id") /\ PrefixBy(s, SubSeq(s, 1, Len(s) - 1), "eq", p, p)
         /\ ~PrefixBy(SubSeq(s, 1, Len(s) - 1), s, "any", p, p)
         /\ PrefixBy(s, <<>>, "lt", p, p)
=============================================================================
