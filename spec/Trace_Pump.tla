------------------------------ MODULE Trace_Pump ------------------------------
(***************************************************************************)
(* Judges calls whose arguments are of great length.  Every operation of     *)
(* the other modules is a transduction by a finite machine as far as these    *)
(* arguments go: n copies of something give a result in which a part is      *)
(* repeated, and the number of repetitions (like every other number in it)   *)
(* is an affine function of n.  The results for a few small n were judged by  *)
(* the module concerned; they determine the result for any n.                *)
(*                                                                         *)
(* shapes: the results for the small n with their repetitions folded;          *)
(* nums: their numbers, in order.                                           *)
(***************************************************************************)
EXTENDS TraceLib

\* The n are multiples of 12 and n[2] = n[1] + 12, so that whatever is combined by
\* twos, threes or fours comes out even, and no division is needed.
Affine(n, x, m, y) ==      \* x[k] at n[k]: is y at m what they say?
  LET At(z) == x[1] + (x[2] - x[1]) * ((z - n[1]) \div 12) IN
  /\ \A k \in 1..Len(n) : x[k] = At(n[k])
  /\ y = At(m)
JudgePump(e) ==
  IF e.bigshape = "crash" \/ \E k \in 1..Len(e.n) : e.shapes[k] = "crash" THEN {"crash"}
  ELSE If(\/ \E k \in 1..Len(e.n) : e.shapes[k] # e.bigshape
          \/ \E k \in 1..Len(e.n) : Len(e.nums[k]) # Len(e.bignums)
          \/ \E j \in 1..Len(e.bignums) : ~Affine(e.n, [k \in 1..Len(e.n) |-> e.nums[k][j]], e.big, e.bignums[j]), "pump")
Checked == Report(JudgePump(Log[i]))
=============================================================================
