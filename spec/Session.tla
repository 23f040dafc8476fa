------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* Histories of encode() and decode() calls on a few stores.  The result of *)
(* a call consists of views: of the store, or of the characters which the   *)
(* argument's views showed.  Reusing a store ends the life of every value    *)
(* that may view it.                                                        *)
(*                                                                         *)
(* State: reg, the values (<<>>: none); deps[r], the stores whose use ends   *)
(* the life of reg[r].  Registers and stores are numbered from 0 in          *)
(* actions.  The stores' contents are not in the state: a call depends on    *)
(* nothing the store held before.                                           *)
(***************************************************************************)
EXTENDS PartsCodec

Fresh0(n) == [reg |-> [r \in 1..n |-> <<>>], deps |-> [r \in 1..n |-> {}]]
\* after the store s was written: r keeps its value only if it does not view s
Drop(q, s) == [reg  |-> [r \in DOMAIN q.reg |-> IF s \in q.deps[r] THEN <<>> ELSE q.reg[r]],
               deps |-> [r \in DOMAIN q.deps |-> IF s \in q.deps[r] THEN {} ELSE q.deps[r]]]
SetReg(q, r, v, d) == [reg |-> [q.reg EXCEPT ![r + 1] = v], deps |-> [q.deps EXCEPT ![r + 1] = d]]

\* a call on store s may be made if its argument does not view s
MayCall(q, s, src) == q.reg[src + 1] # <<>> /\ s \notin q.deps[src + 1]
DoLoad(q, dst, p) == SetReg(q, dst, <<p>>, {})
DoEncode(q, s, src, dst) ==
  SetReg(Drop(q, s), dst, <<EncodeParts(q.reg[src + 1][1])>>, q.deps[src + 1] \cup {s})
\* an error leaves no value
Decoded(q, s, src, dst, d) == SetReg(Drop(q, s), dst, d.p, IF d.p = <<>> THEN {} ELSE q.deps[src + 1] \cup {s})
DoDecode(q, s, src, dst) == Decoded(q, s, src, dst, DecodeParts(q.reg[src + 1][1]))
DoFill(q, s) == Drop(q, s)

\* --- judging the views of one result -----------------------------------------------
\* Each component of a result is recorded as <<kind, offset, length>>: kind 0 shows
\* nothing, 1 the argument's characters, 2 a part of the store, 3 anything else.
InStore(vs) == {k \in 1..Len(vs) : vs[k][1] = 2 /\ vs[k][3] > 0}
SumLen(vs) == FoldLeft(LAMBDA acc, v : IF v[1] = 2 THEN acc + v[3] ELSE acc, 0, vs)
ViewsOk(vs, size) ==
  /\ \A k \in 1..Len(vs) : vs[k][1] # 3
  /\ \A k \in InStore(vs) : vs[k][2] >= 0 /\ vs[k][2] + vs[k][3] <= size
  /\ \A j, k \in InStore(vs) : j < k => \/ vs[j][2] + vs[j][3] <= vs[k][2]
                                        \/ vs[k][2] + vs[k][3] <= vs[j][2]
  /\ SumLen(vs) = size
=============================================================================
