-------------------------------- MODULE Utf ---------------------------------
(***************************************************************************)
(* Unicode encoding forms: what is well-formed (Unicode 15, chapter 3, D79,  *)
(* tables 3-5..3-7), how ill-formed text is decoded (one U+FFFD for each     *)
(* maximal subpart, D93b), the decoder as a machine which reads one code    *)
(* unit at a time, and the choice of an encoding by the byte order mark.      *)
(* A code unit is a number; the 32 bit units from 2^31 are written as the    *)
(* negative numbers which have the same bits (none is a code point).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Scalar(c) == (c >= 0 /\ c <= 55295) \/ (c >= 57344 /\ c <= 1114111)
HighSur(u) == u >= 55296 /\ u <= 56319
LowSur(u) == u >= 56320 /\ u <= 57343
FFFD == 65533
Forms == {8, 16, 32}

\* --- encoding a scalar value ---------------------------------------------------
Enc8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Enc16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
EncOne(f, c) == CASE f = 8 -> Enc8(c) [] f = 16 -> Enc16(c) [] f = 32 -> <<c>>
EncAll(f, cs) == FoldLeft(LAMBDA acc, c : acc \o EncOne(f, c), <<>>, cs)

\* --- well-formed sequences of one code point -----------------------------------------
\* Table 3-7: the ranges <<lo, hi>> of the bytes after a first byte b; none if b begins nothing.
Cont == <<128, 191>>
After(b) == IF b < 128 THEN <<<<>>>>
            ELSE IF b < 194 THEN <<>>
            ELSE IF b < 224 THEN <<<<Cont>>>>
            ELSE IF b = 224 THEN <<<<<<160, 191>>, Cont>>>>
            ELSE IF b = 237 THEN <<<<<<128, 159>>, Cont>>>>
            ELSE IF b < 240 THEN <<<<Cont, Cont>>>>
            ELSE IF b = 240 THEN <<<<<<144, 191>>, Cont, Cont>>>>
            ELSE IF b < 244 THEN <<<<Cont, Cont, Cont>>>>
            ELSE IF b = 244 THEN <<<<<<128, 143>>, Cont, Cont>>>>
            ELSE <<>>
InRange(r, b) == b >= r[1] /\ b <= r[2]
Begins8(s) == /\ After(s[1]) # <<>>
              /\ Len(s) <= 1 + Len(After(s[1])[1])
              /\ \A k \in 2..Len(s) : InRange(After(s[1])[1][k - 1], s[k])
\* s # <<>> begins, is, a well-formed sequence of one code point
Begins(f, s) == CASE f = 8  -> Begins8(s)
                  [] f = 16 -> \/ Len(s) = 1 /\ ~LowSur(s[1])
                               \/ Len(s) = 2 /\ HighSur(s[1]) /\ LowSur(s[2])
                  [] f = 32 -> Len(s) = 1 /\ Scalar(s[1])
Is(f, s) == /\ Begins(f, s)
            /\ CASE f = 8  -> Len(s) = 1 + Len(After(s[1])[1])
                 [] f = 16 -> Len(s) = 2 \/ ~HighSur(s[1])
                 [] f = 32 -> TRUE
Lead == <<0, 192, 224, 240>>
Value(f, s) == CASE f = 8  -> FoldLeft(LAMBDA acc, b : 64 * acc + (b - 128), s[1] - Lead[Len(s)], Tail(s))
                 [] f = 16 -> IF Len(s) = 1 THEN s[1] ELSE 65536 + 1024 * (s[1] - 55296) + (s[2] - 56320)
                 [] f = 32 -> s[1]

\* --- decoding by the definition: [out |-> scalar values, ok |-> was it well-formed] -------
Longest(S) == CHOOSE n \in S : \A m \in S : m <= n
RECURSIVE DefFrom(_, _, _, _)
DefFrom(f, s, i, d) ==
  IF i > Len(s) THEN d
  ELSE LET ns == {n \in 1..4 : i + n - 1 <= Len(s) /\ Begins(f, SubSeq(s, i, i + n - 1))}
           m  == IF ns = {} THEN 1 ELSE Longest(ns)
           t  == SubSeq(s, i, i + m - 1)
       IN IF ns # {} /\ Is(f, t) THEN DefFrom(f, s, i + m, [d EXCEPT !.out = Append(@, Value(f, t))])
          ELSE DefFrom(f, s, i + m, [out |-> Append(d.out, FFFD), ok |-> FALSE])
DecodeDef(f, s) == DefFrom(f, s, 1, [out |-> <<>>, ok |-> TRUE])

\* --- the machine -------------------------------------------------------------------------
\* State: p, the units read of an unfinished code point; out, the code points put
\* out by the last action; ok, whether all was well-formed so far.
Start(ok) == [p |-> <<>>, out |-> <<>>, ok |-> ok]
\* the unit u with nothing unfinished before it
Fresh(f, u, q) == IF Is(f, <<u>>) THEN [q EXCEPT !.p = <<>>, !.out = Append(@, Value(f, <<u>>))]
                  ELSE IF Begins(f, <<u>>) THEN [q EXCEPT !.p = <<u>>]
                  ELSE [p |-> <<>>, out |-> Append(q.out, FFFD), ok |-> FALSE]
Accept(f, q, u) ==
  IF q.p = <<>> THEN Fresh(f, u, q)
  ELSE LET t == Append(q.p, u) IN
       IF Is(f, t) THEN [q EXCEPT !.p = <<>>, !.out = Append(@, Value(f, t))]
       ELSE IF Begins(f, t) THEN [q EXCEPT !.p = t]
       ELSE Fresh(f, u, [p |-> <<>>, out |-> Append(q.out, FFFD), ok |-> FALSE])
Push(f, q, u) == Accept(f, [q EXCEPT !.out = <<>>], u)
End(q) == IF q.p = <<>> THEN [q EXCEPT !.out = <<>>] ELSE [p |-> <<>>, out |-> <<FFFD>>, ok |-> FALSE]
\* all of s, then the end
DecodeRun(f, s) == LET q == FoldLeft(LAMBDA a, u : Accept(f, a, u), Start(TRUE), s)
                       e == End(q)
                   IN [out |-> q.out \o e.out, ok |-> e.ok]

\* --- byte streams ---------------------------------------------------------------------------
Encodings == {"utf8", "utf16be", "utf16le", "utf32be", "utf32le"}
Mark(e) == CASE e = "utf8"    -> <<239, 187, 191>>
             [] e = "utf16be" -> <<254, 255>>
             [] e = "utf16le" -> <<255, 254>>
             [] e = "utf32be" -> <<0, 0, 254, 255>>
             [] e = "utf32le" -> <<255, 254, 0, 0>>
Form(e) == CASE e = "utf8" -> 8 [] e \in {"utf16be", "utf16le"} -> 16 [] e \in {"utf32be", "utf32le"} -> 32
UnitBytes(e) == Form(e) \div 8
Signed(b) == IF b >= 128 THEN b - 256 ELSE b
UnitOf(e, bs) == CASE e = "utf8"    -> bs[1]
                   [] e = "utf16be" -> 256 * bs[1] + bs[2]
                   [] e = "utf16le" -> 256 * bs[2] + bs[1]
                   [] e = "utf32be" -> 16777216 * Signed(bs[1]) + (65536 * bs[2] + 256 * bs[3] + bs[4])
                   [] e = "utf32le" -> 16777216 * Signed(bs[4]) + (65536 * bs[3] + 256 * bs[2] + bs[1])

\* by definition: the longest mark that begins s decides
Marked(s) == {e \in Encodings : IsPrefix(Mark(e), s)}
Sniff(s) == IF Marked(s) = {} THEN "utf8" ELSE CHOOSE e \in Marked(s) : \A e2 \in Marked(s) : Len(Mark(e2)) <= Len(Mark(e))
Rest(s) == IF Marked(s) = {} THEN s ELSE SubSeq(s, Len(Mark(Sniff(s))) + 1, Len(s))
Units(e, s) == [k \in 1..(Len(s) \div UnitBytes(e)) |-> UnitOf(e, SubSeq(s, (k - 1) * UnitBytes(e) + 1, k * UnitBytes(e)))]
\* a unit cut short at the end is one more ill-formed sequence
BytesDef(s) == LET e == Sniff(s)
                   d == DecodeDef(Form(e), Units(e, Rest(s)))
               IN IF Len(Rest(s)) % UnitBytes(e) = 0 THEN d ELSE [out |-> Append(d.out, FFFD), ok |-> FALSE]

\* The machine: enc, the encoding ("unknown" at first); held, the bytes which are
\* not yet a unit (or may yet be a mark); q, the decoder.
BStart == [enc |-> "unknown", held |-> <<>>, q |-> Start(TRUE)]
MayBeMark(h) == \E e \in Encodings : IsPrefix(h, Mark(e)) /\ h # Mark(e)
Feed1(b, x) == LET h == Append(b.held, x) IN
               IF Len(h) = UnitBytes(b.enc) THEN [b EXCEPT !.held = <<>>, !.q = Accept(Form(b.enc), b.q, UnitOf(b.enc, h))]
               ELSE [b EXCEPT !.held = h]
Feed(b, xs) == FoldLeft(Feed1, b, xs)
Decide(b) == Feed([b EXCEPT !.enc = Sniff(b.held), !.held = <<>>], Rest(b.held))
BPush(b0, x) == LET b == [b0 EXCEPT !.q.out = <<>>] IN
                IF b.enc # "unknown" THEN Feed1(b, x)
                ELSE LET h == [b EXCEPT !.held = Append(@, x)] IN IF MayBeMark(h.held) THEN h ELSE Decide(h)
BEnd(b0) == LET b == IF b0.enc = "unknown" THEN Decide([b0 EXCEPT !.q.out = <<>>]) ELSE [b0 EXCEPT !.q.out = <<>>]
                q1 == IF b.q.p = <<>> THEN b.q ELSE [p |-> <<>>, out |-> Append(b.q.out, FFFD), ok |-> FALSE]
                q2 == IF b.held = <<>> THEN q1 ELSE [p |-> <<>>, out |-> Append(q1.out, FFFD), ok |-> FALSE]
            IN [b EXCEPT !.held = <<>>, !.q = q2]
BPartial(b) == b.held # <<>> \/ b.q.p # <<>>
=============================================================================
