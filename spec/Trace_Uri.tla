----------------------------- MODULE Trace_Uri ------------------------------
(***************************************************************************)
(* Judges recorded calls of the functions of uri.hpp.                      *)
(***************************************************************************)
EXTENDS UriModel, TraceLib

\* split() and split_reference() of one string.
JudgeSplit(e) ==
  LET ref == AbnfSplitRef(e.in)
      \* (MC_AbnfDfa: a URI is a URI-reference that has a scheme.)
      uri == IF ref # <<>> /\ ref[1].scheme # <<>> THEN ref ELSE <<>>
  IN If((e.ref = <<>>) # (ref = <<>>), "C01")
     \cup If((e.uri = <<>>) # (uri = <<>>), "C02")
     \cup If(e.uri # <<>> /\ e.ref # <<>> /\ e.uri # e.ref, "C02")
     \cup If(e.ref # <<>> /\ ref # <<>> /\ e.ref # ref, "C03")
     \cup If(e.uri # <<>> /\ uri # <<>> /\ e.uri # uri, "C03")
     \cup If(~e.views, "C03")
     \cup If(~e.again, "C03")
     \cup If(e.ref # <<>> /\ e.composed # <<e.in>>, "C04")
     \cup If(e.ref # <<>> /\ ref # <<>> /\ e.valid # <<ref[1].scheme # <<>>>>, "C05")

JudgeCompose(e) ==
  LET text == Compose(e.p)
      valid == Valid(e.p)
  IN If(e.text # text, "C04")
     \cup If(e.shift # e.text \/ e.stream # <<60>> \o e.text \o <<62>>, "C21")
     \cup If(Canonical(e.p) /\ e.ref # <<>> /\ AbnfSplitRef(text) = <<e.p>>
             /\ ~(e.eqref /\ e.ref = <<e.p>>), "C04")
     \cup If(e.valid # valid, "C05")
     \cup If(e.pathvalid # PathValid(e.p.segs), "C05")
     \cup If(e.p.auth # <<>> /\ e.authvalid # <<AuthValid(e.p.auth[1])>>, "C05")
     \* a valid value composes to a URI that has the same components
     \cup If(valid /\ \/ e.uri = <<>>
                      \/ e.uri[1].scheme # e.p.scheme \/ e.uri[1].auth # e.p.auth
                      \/ e.uri[1].query # e.p.query \/ e.uri[1].fragment # e.p.fragment
                      \/ PathText(e.uri[1].abs, e.uri[1].segs)
                         # PathText(e.p.abs \/ e.p.auth # <<>>, e.p.segs), "C05")
     \* and the very same value if it is one that split() can return
     \cup If(valid /\ Canonical(e.p) /\ ~(e.uri = <<e.p>> /\ e.equri), "C05")

JudgeRds(e) ==
  LET want == RemoveDots(e.p.segs) IN
     If(e.out # [abs |-> e.p.abs, segs |-> want], "C07")
     \cup If(e.again # e.out, "C07")
     \cup If(\E k \in 1..Len(e.out.segs) : IsDot(e.out.segs[k]), "C07")
     \cup If(Len(e.out.segs) > Len(e.p.segs), "C07")
     \* (a segment with a '/' in it is several in the path's text)
     \cup If(e.p.abs /\ e.p.segs # <<>> /\ (\A k \in 1..Len(e.p.segs) : \A c \in 1..Len(e.p.segs[k]) : e.p.segs[k][c] # 47)
             /\ e.outtext # RfcRemoveDots(e.text), "C07")

\* The absolute flag means nothing beside an authority.
SameParts(p, q) == Eq(p, q)

\* (Only for parts that have a meaning as URI references: what join() makes of
\* a relative path beside an authority, say, nobody prescribes.)
JudgeJoinParts(e) ==
  (IF Canonical(e.base) /\ Canonical(e.ref)
   THEN If(~SameParts(e.out, Join(e.base, e.ref, e.strict)), "C06")
        \cup If(Compose(e.out) # JoinText(e.base, e.ref, e.strict), "C06")
   ELSE {})
  \cup If(~e.pure, "C06")

JudgeJoinText(e) ==
  LET b0 == AbnfSplitRef(e.base)
      b == IF b0 # <<>> /\ b0[1].scheme # <<>> THEN b0 ELSE <<>>
      r == AbnfSplitRef(e.ref)
  IN IF b = <<>> \/ r = <<>>
     THEN If(e.out # <<>>, "C06")
     ELSE If(e.out = <<>>, "C06")
          \cup (IF e.out = <<>> THEN {} ELSE
                If(~SameParts(e.out[1], Join(b[1], r[1], e.strict)), "C06")
                \cup If(e.text # <<JoinText(b[1], r[1], e.strict)>>, "C06")
                \cup If(~e.views, "C06"))

JudgeEq(e) ==
  LET I == 1..3
      P(k) == e.p[k]
      Ens == IF e.p[1].auth # <<>> THEN e.p[1]
             ELSE [e.p[1] EXCEPT !.auth = <<[userinfo |-> <<>>, host |-> <<>>, port |-> <<>>]>>]
  IN If(\E x, y \in I : e.eq[x][y] # Eq(P(x), P(y)), "C08")
     \cup If(\E x, y \in I : e.ne[x][y] # ~e.eq[x][y], "C08")
     \cup If(\E x, y \in I : e.patheq[x][y] # PathEq(P(x), P(y)), "C08")
     \cup If(\E x, y \in I : e.pathne[x][y] # ~e.patheq[x][y], "C08")
     \cup If(\E x, y \in I : e.autheq[x][y] # (P(x).auth = P(y).auth), "C08")
     \cup If(\E x, y \in I : e.authne[x][y] # ~e.autheq[x][y], "C08")
     \* an equivalence, and a congruence for composition
     \cup If(\E x \in I : ~e.eq[x][x], "C08")
     \cup If(\E x, y \in I : e.eq[x][y] # e.eq[y][x], "C08")
     \cup If(\E x, y, z \in I : e.eq[x][y] /\ e.eq[y][z] /\ ~e.eq[x][z], "C08")
     \cup If(\E x, y \in I : e.eq[x][y] /\ e.texts[x] # e.texts[y], "C08")
     \cup If(e.ensured # Ens, "C08")

JudgePath(e) ==
  LET text == PathText(e.p.abs, e.p.segs) IN
     If(e.str # text \/ e.shift # text, "C21")
     \cup If(e.empty # (e.p.segs = <<>>), "C21")
     \cup If(e.auth # <<>> /\ e.auth[1].text # AuthText(e.auth[1]), "C21")
     \cup If(e.fs # FsText(e.p.abs, e.p.segs), "C21")

JudgeUri(e) ==
  CASE Crashed(e)       -> {"crash"}
    [] e.op = "split"   -> JudgeSplit(e)
    [] e.op = "compose" -> JudgeCompose(e)
    [] e.op = "rds"     -> JudgeRds(e)
    [] e.op = "joinp"   -> JudgeJoinParts(e)
    [] e.op = "joins"   -> JudgeJoinText(e)
    [] e.op = "eq"      -> JudgeEq(e)
    [] e.op = "path"    -> JudgePath(e)

Checked == Report(JudgeUri(Log[i]))
=============================================================================
