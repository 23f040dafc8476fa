------------------------------ MODULE MC_UtfAll ------------------------------
(***************************************************************************)
(* Tables 3-5 and 3-7 agree on every scalar value: a state is a block of 256. *)
(***************************************************************************)
EXTENDS Utf, TLC
VARIABLE b
Init == b \in 0..63
Next == b + 64 <= 4351 /\ b' = b + 64
Block == {c \in (256 * b)..(256 * b + 255) : Scalar(c)}
Agree == \A c \in Block : \A f \in Forms : LET e == EncOne(f, c) IN
             Is(f, e) /\ Value(f, e) = c /\ \A n \in 1..(Len(e) - 1) : Begins(f, SubSeq(e, 1, n)) /\ ~Is(f, SubSeq(e, 1, n))
\* There are exactly as many well-formed sequences as scalar values, so that
\* (Agree: they include all encodings) they are the encodings.
Size(r) == r[2] - r[1] + 1
Count8(x) == IF After(x) = <<>> THEN 0 ELSE FoldLeft(LAMBDA a, r : a * Size(r), 1, After(x)[1])
Scalars == 1114112 - 2048
ASSUME FoldLeft(LAMBDA a, x : a + Count8(x), 0, [k \in 1..256 |-> k - 1]) = Scalars
ASSUME (65536 - 2048) + 1024 * 1024 = Scalars
=============================================================================
