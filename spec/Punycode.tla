------------------------------ MODULE Punycode -------------------------------
(***************************************************************************)
(* Punycode, RFC 3492.  A code point is a number of up to 32 bits and so is *)
(* written as in module Big; a string of code points is a sequence of them. *)
(* A Punycode string is a sequence of bytes.  The integers of the library   *)
(* have 64 bits, code points 32.                                            *)
(***************************************************************************)
EXTENDS UriChars, Big, SequencesExt

\* --- section 5: the parameters ------------------------------------------------
Base == 36      TMin == 1      TMax == 26      Skew == 38      Damp == 700
InitialBias == 72
InitialN == <<128>>

Basic(cp) == Lt(cp, InitialN)
BasicOf(c) == FromNat(c)          \* a byte below 128 as a code point
\* a code point below 128 as a byte
ByteOf(cp) == ToNat(cp)

DigitChar(d) == IF d < 26 THEN 97 + d ELSE 22 + d
\* The value of a digit in either case; Base if the character is none.
DigitVal(c) == IF c \in Digit THEN c - 22
               ELSE IF c \in Upper THEN c - 65
               ELSE IF c \in Lower THEN c - 97 ELSE Base

\* --- section 6.1 ---------------------------------------------------------------
RECURSIVE AdaptLoop(_, _)
AdaptLoop(delta, k) ==
  IF Lt(FromNat(((Base - TMin) * TMax) \div 2), delta) THEN AdaptLoop(DivS(delta, Base - TMin)[1], k + Base)
  ELSE LET d == ToNat(delta) IN k + ((Base - TMin + 1) * d) \div (d + Skew)
Adapt(delta, numpoints, first) ==
  LET d == DivS(delta, IF first THEN Damp ELSE 2)[1] IN
  AdaptLoop(Add(d, DivS(d, numpoints)[1]), 0)

Threshold(k, bias) == IF k <= bias + TMin THEN TMin ELSE IF k >= bias + TMax THEN TMax ELSE k - bias

\* --- section 6.2 "Decoding procedure" -------------------------------------------
\* One variable-length integer is read digit by digit: i and w are the RFC's,
\* p the position of the next digit.
RECURSIVE ReadVli(_, _, _, _, _, _)
ReadVli(s, p, i, w, k, bias) ==
  IF p > Len(s) THEN [st |-> "bad_input"]
  ELSE LET d == DigitVal(s[p]) IN
       IF d = Base THEN [st |-> "bad_input"]
       ELSE LET i2 == Add(i, MulS(w, d))
                t  == Threshold(k, bias)
                w2 == MulS(w, Base - t)
            IN IF Lt(Max64, i2) THEN [st |-> "overflow"]
               ELSE IF d < t THEN [st |-> "ok", i |-> i2, p |-> p + 1]
               ELSE IF Lt(Max64, w2) THEN [st |-> "overflow"]
               ELSE ReadVli(s, p + 1, i2, w2, k + Base, bias)

\* The decoder's state: [st, n, i, bias, out, p]; st is "run", "ok", or an error.
LastDelim(s) == LET q == {x \in 1..Len(s) : s[x] = HYPHEN} IN
                IF q = {} THEN 0 ELSE CHOOSE x \in q : \A y \in q : x >= y
DecInit(s) ==
  LET d == LastDelim(s)
      lit == SubSeq(s, 1, d - 1)
  IN [st   |-> IF \E x \in 1..Len(lit) : lit[x] >= 128 THEN "bad_input" ELSE "run",
      n    |-> InitialN, i |-> <<>>, bias |-> InitialBias,
      out  |-> [x \in 1..Len(lit) |-> BasicOf(lit[x])],
      \* "if more than zero code points were consumed then consume one more"
      p    |-> IF d > 1 THEN d + 1 ELSE 1]
DecStep(s, q) ==
  IF q.p > Len(s) THEN [q EXCEPT !.st = "ok"]
  ELSE LET r == ReadVli(s, q.p, q.i, <<1>>, Base, q.bias) IN
       IF r.st # "ok" THEN [q EXCEPT !.st = r.st]
       ELSE LET len == Len(q.out) + 1
                dv  == DivS(r.i, len)
                n2  == Add(q.n, dv[1])
            IN IF Lt(Max32, n2) THEN [q EXCEPT !.st = "overflow"]
               ELSE [st   |-> "run", n |-> n2, i |-> FromNat(dv[2] + 1),
                     bias |-> Adapt(Sub(r.i, q.i), len, q.i = <<>>),
                     out  |-> SubSeq(q.out, 1, dv[2]) \o <<n2>> \o SubSeq(q.out, dv[2] + 1, Len(q.out)),
                     p    |-> r.p]
RECURSIVE DecRun(_, _)
DecRun(s, q) == IF q.st # "run" THEN q ELSE DecRun(s, DecStep(s, q))
\* [st |-> "ok", out |-> code points] or [st |-> "bad_input" / "overflow", ...]
PunyDecode(s) == DecRun(s, DecInit(s))

\* --- section 6.3 "Encoding procedure" -------------------------------------------
RECURSIVE Vli(_, _, _)
Vli(q, k, bias) ==
  LET t == Threshold(k, bias) IN
  IF Lt(q, FromNat(t)) THEN <<DigitChar(ToNat(q))>>
  ELSE LET dv == DivS(SubS(q, t), Base - t) IN
       <<DigitChar(t + dv[2])>> \o Vli(dv[1], k + Base, bias)

\* Inner loop: for each code point c of the input, in order.
\* e: [delta, bias, h, out]
RECURSIVE EncPass(_, _, _, _, _)
EncPass(x, m, j, b, e) ==
  IF j > Len(x) THEN e
  ELSE EncPass(x, m, j + 1, b,
    IF Lt(x[j], m) THEN [e EXCEPT !.delta = AddS(@, 1)]
    ELSE IF x[j] = m
    THEN [delta |-> <<>>, bias |-> Adapt(e.delta, e.h + 1, e.h = b), h |-> e.h + 1,
          out |-> e.out \o Vli(e.delta, Base, e.bias)]
    ELSE e)
RECURSIVE EncLoop(_, _, _, _)
EncLoop(x, n, b, e) ==
  IF e.h >= Len(x) THEN e.out
  ELSE LET big == {x[j] : j \in {y \in 1..Len(x) : Le(n, x[y])}}
           m   == CHOOSE c \in big : \A c2 \in big : Le(c, c2)
           e1  == [e EXCEPT !.delta = Add(@, MulS(Sub(m, n), e.h + 1))]
           e2  == EncPass(x, m, 1, b, e1)
       IN EncLoop(x, AddS(m, 1), b, [e2 EXCEPT !.delta = AddS(@, 1)])
PunyEncode(x) ==
  LET bs == SelectSeq(x, Basic)
      lit == [j \in 1..Len(bs) |-> ByteOf(bs[j])]
      b  == Len(bs)
  IN EncLoop(x, InitialN, b,
       [delta |-> <<>>, bias |-> InitialBias, h |-> b, out |-> IF b > 0 THEN lit \o <<HYPHEN>> ELSE <<>>])
AllBasic(x) == \A j \in 1..Len(x) : Basic(x[j])
\* The library's encode(): all-ASCII input may be left as it is.
Encode(x, plain) == IF plain /\ AllBasic(x) THEN [j \in 1..Len(x) |-> ByteOf(x[j])] ELSE PunyEncode(x)
=============================================================================
