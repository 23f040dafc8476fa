------------------------------ MODULE Trace_Utf ------------------------------
(***************************************************************************)
(* Judges recorded behaviours of the transcoders of icubaby.hpp.             *)
(***************************************************************************)
EXTENDS Utf, TraceLib

Text(to, cs) == EncAll(to, cs)
Flag(b, n) == IF b THEN n ELSE 0

\* --- one transcoder, action by action --------------------------------------------
\* Actions: <<0, unit>>, <<1, 0>> end, <<2, 0>> a new one, <<3, 0>> go on with a copy.
\* What was put out is compared at the boundaries of code points: within one,
\* the implementation may still keep back what it will put out.
Same(a, q, want, got, last) == IF q.p = <<>> THEN got = want
                               ELSE IsPrefix(got, want) \/ (~last /\ IsPrefix(want, got))
PushStep(e, a, k) ==
  LET act == e.acts[k]
      q == CASE act[1] = 0 -> Push(e.from, a.q, act[2])
             [] act[1] = 1 -> End(a.q)
             [] act[1] = 2 -> Start(TRUE)
             [] act[1] = 3 -> [a.q EXCEPT !.out = <<>>]
      want == (IF act[1] = 2 THEN <<>> ELSE a.want) \o Text(e.to, q.out)
      got == (IF act[1] = 2 THEN <<>> ELSE a.got) \o e.outs[k]
      badout == ~Same(a, q, want, got, k = Len(e.acts))
      badwf == e.flags[k] % 2 # Flag(q.ok /\ e.wf0, 1)
      badpart == e.flags[k] - (e.flags[k] % 2) # Flag(q.p # <<>>, 2)
      ill == a.ill \/ ~q.ok
  IN [q |-> q, ill |-> ill,
      want |-> IF q.p = <<>> THEN <<>> ELSE want, got |-> IF q.p = <<>> THEN <<>> ELSE got,
      bad |-> a.bad \cup If((badout \/ badwf \/ badpart) /\ q.ok, "C16") \cup If(badout \/ badwf, "C17?")
              \cup If(badpart, "C17")]
JudgePush(e) ==
  LET r == FoldLeft(LAMBDA a, k : PushStep(e, a, k),
                    [q |-> Start(TRUE), ill |-> FALSE, want |-> <<>>, got |-> <<>>, bad |-> {}],
                    [k \in 1..Len(e.acts) |-> k])
  IN {x \in r.bad : x # "C17?"} \cup If("C17?" \in r.bad /\ r.ill, "C17")

\* --- the byte transcoder; judged up to the first end (until a new one begins) ----------
BytesStep(e, a, k) ==
  LET act == e.acts[k]
      b == CASE act[1] = 0 -> BPush(a.b, act[2])
             [] act[1] = 1 -> BEnd(a.b)
             [] act[1] = 2 -> BStart
             [] act[1] = 3 -> [a.b EXCEPT !.q.out = <<>>]
      on == act[1] = 2 \/ ~a.over
      q == [b.q EXCEPT !.p = IF BPartial(b) THEN <<0>> ELSE <<>>]
      want == (IF act[1] = 2 THEN <<>> ELSE a.want) \o Text(e.to, b.q.out)
      got == (IF act[1] = 2 THEN <<>> ELSE a.got) \o e.outs[k]
      bad == \/ ~Same(a, q, want, got, k = Len(e.acts))
             \/ e.flags[k] % 2 # Flag(b.q.ok, 1)
             \* (whether the bytes of a mark are part of a code point is left open)
             \/ (b.enc # "unknown" \/ b.held = <<>>) /\ e.flags[k] - (e.flags[k] % 2) # Flag(BPartial(b), 2)
             \/ e.encs[k] # b.enc
  IN IF ~on THEN a
     ELSE [b |-> b, over |-> act[1] = 1,
           want |-> IF q.p = <<>> THEN <<>> ELSE want, got |-> IF q.p = <<>> THEN <<>> ELSE got,
           bad |-> a.bad \cup If(bad, "C18")]
JudgeBytes(e) ==
  FoldLeft(LAMBDA a, k : BytesStep(e, a, k),
           [b |-> BStart, over |-> FALSE, want |-> <<>>, got |-> <<>>, bad |-> {}],
           [k \in 1..Len(e.acts) |-> k]).bad

\* --- views and iterators: every way gives what pushing gives -----------------------------
JudgeView(e) ==
  LET d == IF e.from = 0 THEN BytesDef(e.in) ELSE DecodeRun(e.from, e.in)
      w == e.ways[1]
      wrong == w.out # Text(e.to, d.out) \/ w.wf # d.ok
  IN If(Len(e.ways) # 1 \/ ~w.sane \/ ~e.pure, "C19")
     \cup If(wrong, IF e.from = 0 THEN "C18" ELSE IF d.ok THEN "C16" ELSE "C17")

\* --- counting -------------------------------------------------------------------------------
Starts(f, u) == CASE f = 8 -> ~(u >= 128 /\ u < 192) [] f = 16 -> ~LowSur(u) [] f = 32 -> Scalar(u)
JudgeLen(e) ==
  LET n == Len(e.in)
      st == {k \in 1..n : Starts(e.from, e.in[k])}
      count == Cardinality(st)
      at == SetToSortSeq(st, <)
  IN If(\/ \E k \in 1..Len(e.lens) : e.lens[k] # count
        \/ \E k \in 1..Len(e.proj) : e.proj[k] # n
        \/ Len(e.idx) # Len(e.ns)
        \/ \E m \in 1..Len(e.ns) : e.idx[m] # <<IF e.ns[m] < count THEN at[e.ns[m] + 1] - 1 ELSE n>>
        \/ \E k \in 1..n : e.starts[k] # (k \in st)
        \/ \E k \in 1..n : e.sur[k] # Flag(HighSur(e.in[k]), 5) + Flag(LowSur(e.in[k]), 6), "C25")

JudgeUtf(e) == CASE Crashed(e)                    -> {"crash"}
                 [] e.op = "push" /\ e.from # 0 -> JudgePush(e)
                 [] e.op = "push" /\ e.from = 0 -> JudgeBytes(e)
                 [] e.op = "view"                -> JudgeView(e)
                 [] e.op = "len"                 -> JudgeLen(e)
Checked == Report(JudgeUtf(Log[i]))
=============================================================================
