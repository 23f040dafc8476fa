---------------------------- MODULE MC_Punycode ------------------------------
(***************************************************************************)
(* Round trips of Punycode, and the agreement of the RFC's encoding loop     *)
(* with its idea: the non-basic code points are inserted in order of value   *)
(* and position, and each delta counts the states which the decoder skips.   *)
(***************************************************************************)
EXTENDS Punycode, TLC
CONSTANTS MaxCp, MaxLen

Cps == {<<97>>, <<45>>, <<65>>, <<128>>, <<129>>, <<0, 2>>, <<32767, 33>>, Max32}
Alphabet == {45, 48, 57, 97, 98, 65, 122, 200, 33}  \* - 0 9 a b A z (byte 200) !
RECURSIVE Seqs(_, _)
Seqs(n, S) == IF n = 0 THEN {<<>>}
              ELSE LET q == Seqs(n - 1, S) IN q \cup {Append(x, y) : x \in {z \in q : Len(z) = n - 1}, y \in S}

\* A behaviour decodes s step by step; x is the text whose encoding s is, if any.
VARIABLES kind, x, s, q
vars == <<kind, x, s, q>>
InitCp == kind = "cp" /\ x \in Seqs(MaxCp, Cps) /\ s = PunyEncode(x) /\ q = DecInit(s)
InitBy == kind = "by" /\ x = <<>> /\ s \in Seqs(MaxLen, Alphabet) /\ q = DecInit(s)
Init == InitCp \/ InitBy
Step == q.st = "run" /\ q' = DecStep(s, q) /\ UNCHANGED <<kind, x, s>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

TypeOK == /\ q.p <= Len(s) + 1 /\ Le(q.n, Max32)
          /\ Le(q.i, FromNat(Len(q.out)))
          /\ q.bias \in 0..500
Terminates == <>(q.st # "run")
RoundTrip == (kind = "cp" /\ q.st # "run") => q.st = "ok" /\ q.out = x
\* Decoding is injective up to case: what decodes is the encoding of its result.
LowerS == [j \in 1..Len(s) |-> IF j >= LastDelim(s) THEN ToLower(s[j]) ELSE s[j]]
Unique == (kind = "by" /\ q.st = "ok" /\ s # <<>>) => PunyEncode(q.out) = LowerS
\* The text so far contains what was inserted, in order of value.
Sorted == q.st = "bad_input" \/ \A j \in 1..Len(q.out) : Le(q.out[j], q.n)

\* --- the abstract deltas ----------------------------------------------------------
NB == {j \in 1..Len(x) : ~Basic(x[j])}
Before(j, k) == Lt(x[j], x[k]) \/ (x[j] = x[k] /\ j < k)
\* where position k stands among those inserted before it
Idx(k) == Cardinality({j \in 1..(k - 1) : Basic(x[j]) \/ Before(j, k)})
Have(k) == Cardinality({j \in 1..Len(x) : Basic(x[j]) \/ Before(j, k)})    \* how many those are
Order == SetToSortSeq(NB, Before)
RECURSIVE Deltas(_, _, _)
Deltas(m, n, i) ==   \* n, i: the decoder's state
  IF m > Len(Order) THEN <<>>
  ELSE LET k == Order[m]
           d == SubS(AddS(MulS(Sub(x[k], n), Have(k) + 1), Idx(k)), i)
       IN <<d>> \o Deltas(m + 1, x[k], Idx(k) + 1)
RECURSIVE Vlis(_, _, _)
Vlis(ds, m, bias) ==
  IF m > Len(ds) THEN <<>>
  ELSE Vli(ds[m], Base, bias) \o Vlis(ds, m + 1, Adapt(ds[m], Have(Order[m]) + 1, m = 1))
AbstractEncode ==
  LET bs == SelectSeq(x, Basic) IN
  (IF bs = <<>> THEN <<>> ELSE [j \in 1..Len(bs) |-> ByteOf(bs[j])] \o <<HYPHEN>>) \o Vlis(Deltas(1, InitialN, 0), 1, InitialBias)
Agrees == kind = "cp" => s = AbstractEncode
=============================================================================
