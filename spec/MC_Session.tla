----------------------------- MODULE MC_Session ------------------------------
(***************************************************************************)
(* A store in memory implements module Session: results share one block of  *)
(* memory per store, and a component which does not change keeps showing     *)
(* the characters it showed.  TLC shows that every value which Session says  *)
(* is alive reads back what it should, after every history.  The histories   *)
(* (without the values) are written out to be replayed into the code.        *)
(***************************************************************************)
EXTENDS Session, TLC
CONSTANTS NStores, NRegs, Depth, Emit
VARIABLES q,      \* the state of module Session
          mem,    \* mem[s + 1]: the bytes of store s
          ref,    \* ref[r + 1]: <<>> or <<the views of the components>>
          last,   \* the views of the last call and the size of its store
          hist
vars == <<q, mem, ref, last, hist>>
R == 0..(NRegs - 1)
S == 0..(NStores - 1)

Blank == [scheme |-> <<>>, auth |-> <<>>, abs |-> TRUE, segs |-> <<>>, query |-> <<>>, fragment |-> <<>>]
Auth(h) == <<[userinfo |-> <<>>, host |-> h, port |-> <<>>]>>
\* plain; needing the encoder; needing the decoder; not decodable
Values == {[Blank EXCEPT !.auth = Auth(<<97>>), !.segs = <<<<97>>, <<32>>>>],
           [Blank EXCEPT !.auth = Auth(<<195, 169>>), !.segs = <<<<32, 32>>, <<>>>>, !.query = <<<<34>>>>],
           [Blank EXCEPT !.auth = Auth(XnPrefix \o <<57, 99, 97>>), !.segs = <<<<37, 52, 49>>, <<98>>>>],
           [Blank EXCEPT !.auth = Auth(XnPrefix \o <<57>>)]}

\* the components in order, and a value from its components
Comps(p) == (IF p.auth = <<>> THEN <<>> ELSE <<p.auth[1].host>>) \o p.segs \o p.query
\* a view: the store (or -1: outside), offset, length; outside, the text itself
Outside(t) == [at |-> -1, off |-> 0, len |-> Len(t), text |-> t]
Read(m, v) == IF v.at = -1 THEN v.text ELSE SubSeq(m[v.at + 1], v.off + 1, v.off + v.len)
\* Replaces the components by new: those that change go to the end of store s.
RECURSIVE Place(_, _, _, _, _)
Place(s, old, new, views, acc) ==   \* acc: [m, vs]
  IF new = <<>> THEN acc
  ELSE Place(s, Tail(old), Tail(new), Tail(views),
         IF Head(old) = Head(new) THEN [acc EXCEPT !.vs = Append(@, Head(views))]
         ELSE [m  |-> acc.m \o Head(new),
               vs |-> Append(acc.vs, [at |-> s, off |-> Len(acc.m), len |-> Len(Head(new)), text |-> <<>>])])
Dead(n) == [r \in 1..NRegs |-> IF n.reg[r] = <<>> THEN <<>> ELSE ref[r]]

Load(dst, p) == /\ q' = DoLoad(q, dst, p)
                /\ LET c == Comps(p) IN ref' = [ref EXCEPT ![dst + 1] = <<[k \in 1..Len(c) |-> Outside(c[k])]>>]
                /\ UNCHANGED <<mem, last>>
                /\ hist' = Append(hist, <<"L", dst>>)
Call(act, s, src, dst) ==
  /\ MayCall(q, s, src)
  /\ LET p == q.reg[src + 1][1]
         n == IF act = "E" THEN DoEncode(q, s, src, dst) ELSE DoDecode(q, s, src, dst)
     IN /\ q' = n
        /\ IF n.reg[dst + 1] = <<>>
           THEN /\ mem' = [mem EXCEPT ![s + 1] = <<>>] /\ ref' = Dead(n) /\ last' = <<>>
           ELSE LET a == Place(s, Comps(p), Comps(n.reg[dst + 1][1]), ref[src + 1][1], [m |-> <<>>, vs |-> <<>>]) IN
                /\ mem' = [mem EXCEPT ![s + 1] = a.m]
                /\ ref' = [Dead(n) EXCEPT ![dst + 1] = <<a.vs>>]
                /\ last' = <<[k \in 1..Len(a.vs) |-> <<IF a.vs[k].at = s THEN 2 ELSE 1, a.vs[k].off, a.vs[k].len>>], Len(a.m)>>
  /\ hist' = Append(hist, <<act, s, src, dst>>)
Fill(s) == /\ q' = DoFill(q, s) /\ ref' = Dead(q') /\ mem' = [mem EXCEPT ![s + 1] = <<74, 74, 74>>]
           /\ last' = <<>> /\ hist' = Append(hist, <<"J", s>>)

Init == /\ q = Fresh0(NRegs) /\ mem = [s \in 1..NStores |-> <<>>] /\ ref = [r \in 1..NRegs |-> <<>>]
        /\ last = <<>> /\ hist = <<>>
\* (a history begins by loading register 0)
Next == /\ Len(hist) < Depth
        /\ \/ \E dst \in R, p \in Values : (hist = <<>> => dst = 0) /\ Load(dst, p)
           \/ \E act \in {"E", "D"}, s \in S, src, dst \in R : Call(act, s, src, dst)
           \/ hist # <<>> /\ \E s \in S : Fill(s)

Alive == \A r \in 1..NRegs :
           q.reg[r] # <<>> => /\ ref[r] # <<>>
                              /\ [k \in 1..Len(ref[r][1]) |-> Read(mem, ref[r][1][k])] = Comps(q.reg[r][1])
Placed == last # <<>> => ViewsOk(last[1], last[2])
Written == (Emit /\ Len(hist) = Depth) => PrintT(<<"HIST", ToString(hist)>>)
\* equal states whatever the history (unless histories are wanted)
Only == {Blank}
NoHist == <<q, mem, ref, last, Len(hist)>>
=============================================================================
