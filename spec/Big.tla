-------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32 bit integers: little-endian sequences of *)
(* digits to base 2^15, without leading (that is, final) zeros.  "small" is *)
(* an ordinary number below 2^15.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
B == 32768

RECURSIVE Norm(_)
Norm(x) == IF x = <<>> \/ x[Len(x)] # 0 THEN x ELSE Norm(SubSeq(x, 1, Len(x) - 1))
D(x, k) == IF k <= Len(x) THEN x[k] ELSE 0
RECURSIVE FromNat(_)
FromNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o FromNat(n \div B)
RECURSIVE ToNatFrom(_, _)
ToNatFrom(x, k) == IF k > Len(x) THEN 0 ELSE x[k] + B * ToNatFrom(x, k + 1)
ToNat(x) == ToNatFrom(x, 1)          \* only for numbers below 2^31

RECURSIVE AddFrom(_, _, _, _)
AddFrom(x, y, k, c) == IF k > Len(x) /\ k > Len(y) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                       ELSE LET t == D(x, k) + D(y, k) + c IN <<t % B>> \o AddFrom(x, y, k + 1, t \div B)
Add(x, y) == AddFrom(x, y, 1, 0)
AddS(x, n) == Add(x, FromNat(n))
RECURSIVE SubFrom(_, _, _, _)
SubFrom(x, y, k, c) == IF k > Len(x) THEN <<>>
                       ELSE LET t == D(x, k) - D(y, k) - c IN
                            <<IF t < 0 THEN t + B ELSE t>> \o SubFrom(x, y, k + 1, IF t < 0 THEN 1 ELSE 0)
Sub(x, y) == Norm(SubFrom(x, y, 1, 0))      \* x >= y
SubS(x, n) == Sub(x, FromNat(n))
RECURSIVE MulFrom(_, _, _, _)
MulFrom(x, s, k, c) == IF k > Len(x) THEN FromNat(c)
                       ELSE LET t == x[k] * s + c IN <<t % B>> \o MulFrom(x, s, k + 1, t \div B)
MulS(x, s) == Norm(MulFrom(x, s, 1, 0))
\* <<quotient, remainder (an ordinary number)>>
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(x, s, k, r, q) == IF k = 0 THEN <<Norm(q), r>>
                          ELSE LET t == r * B + x[k] IN DivFrom(x, s, k - 1, t % s, <<t \div s>> \o q)
DivS(x, s) == DivFrom(x, s, Len(x), 0, <<>>)

RECURSIVE LtFrom(_, _, _)
LtFrom(x, y, k) == IF k = 0 THEN FALSE ELSE IF x[k] # y[k] THEN x[k] < y[k] ELSE LtFrom(x, y, k - 1)
Lt(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LtFrom(x, y, Len(x))
Le(x, y) == ~Lt(y, x)

Max64 == <<32767, 32767, 32767, 32767, 15>>   \* 2^64 - 1
Max32 == <<32767, 32767, 3>>                  \* 2^32 - 1
=============================================================================
