------------------------------- MODULE MC_Big --------------------------------
(* The arithmetic of Big agrees with TLC's own where that reaches. *)
EXTENDS Big
CONSTANT Nums, Smalls
VARIABLES x, y, s
Init == x \in Nums /\ y \in Nums /\ s \in Smalls
Next == UNCHANGED <<x, y, s>>
X == FromNat(x)
Y == FromNat(y)
Iso == ToNat(X) = x /\ Norm(X) = X
AddOk == x <= 2147483647 - y => ToNat(Add(X, Y)) = x + y
SubOk == x >= y => Sub(X, Y) = FromNat(x - y)
OrderOk == Lt(X, Y) = (x < y) /\ Le(X, Y) = (x <= y)
MulDiv == LET m == MulS(X, s) IN s > 0 => /\ DivS(m, s) = <<X, 0>>
            /\ (x <= 2147483647 \div s => m = FromNat(x * s))
            /\ DivS(X, s) = <<FromNat(x \div s), x % s>>
            /\ LET q == DivS(Add(m, Y), s) IN Add(MulS(q[1], s), FromNat(q[2])) = Add(m, Y)
=============================================================================
