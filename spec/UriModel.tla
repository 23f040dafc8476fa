------------------------------ MODULE UriModel ------------------------------
(***************************************************************************)
(* The value model of a URI reference and the operations on it: composing, *)
(* validity, equality and reference resolution.                            *)
(*                                                                         *)
(* parts == [scheme   : optional string,                                   *)
(*           auth     : optional [userinfo : optional string,              *)
(*                                host : string, port : optional string],  *)
(*           abs      : BOOLEAN, segs : sequence of strings,               *)
(*           query    : optional string, fragment : optional string]       *)
(* where an optional value is <<>> or <<value>>.                            *)
(***************************************************************************)
EXTENDS UriNfa, UriPath

None  == <<>>
Has1(o) == o # <<>>
Opt1(o, pre, post) == IF o = <<>> THEN <<>> ELSE pre \o o[1] \o post

AuthText(a) == Opt1(a.userinfo, <<>>, <<AT>>) \o a.host \o Opt1(a.port, <<COLON>>, <<>>)
\* RFC 3986 section 5.3 "Component Recomposition".  With an authority a
\* non-empty path begins with a slash, whether or not it is marked absolute.
Compose(p) ==
  Opt1(p.scheme, <<>>, <<COLON>>)
  \o (IF p.auth = <<>> THEN <<>> ELSE <<SLASH, SLASH>> \o AuthText(p.auth[1]))
  \o PathText(p.abs \/ p.auth # <<>>, p.segs)
  \o Opt1(p.query, <<QMARK>>, <<>>)
  \o Opt1(p.fragment, <<HASH>>, <<>>)

\* --- validity ---------------------------------------------------------------------
OptOk(A, o)  == o = <<>> \/ Accepts(A, o[1])
AuthValid(a) == OptOk(UserinfoA, a.userinfo) /\ Accepts(HostA, a.host) /\ OptOk(PortA, a.port)
PathValid(segs) == \A i \in 1..Len(segs) : Accepts(SegmentA, segs[i])
Valid(p) == /\ p.scheme # <<>> /\ Accepts(SchemeA, p.scheme[1])
            /\ p.auth = <<>> \/ AuthValid(p.auth[1])
            /\ PathValid(p.segs)
            /\ p.auth # <<>> \/ ~StartsWith(PathText(p.abs, p.segs), <<SLASH, SLASH>>)
            /\ OptOk(QueryA, p.query)
            /\ OptOk(QueryA, p.fragment)

\* --- equality ----------------------------------------------------------------------
PathEq(p, q) == p.abs = q.abs /\ p.segs = q.segs
Eq(p, q) == /\ p.scheme = q.scheme /\ p.auth = q.auth
            /\ p.query = q.query /\ p.fragment = q.fragment
            /\ p.segs = q.segs
            /\ p.auth # <<>> \/ p.abs = q.abs

\* The parts that split() can return: the flag says what the text says.
Canonical(p) ==
  /\ \A k \in 1..Len(p.segs) : \A j \in 1..Len(p.segs[k]) : p.segs[k][j] # SLASH
  /\ \/ p.segs = <<>> /\ ~p.abs
     \/ p.segs # <<>> /\ p.auth # <<>> /\ p.abs
     \/ p.segs # <<>> /\ p.auth = <<>>
        /\ (p.abs \/ p.segs[1] # <<>>)
        /\ (p.abs /\ p.segs[1] = <<>> => Len(p.segs) = 1)

\* --- section 5.2.2 "Transform References" on parts --------------------------------
MergeSegs(base, ref) ==
  IF base.auth # <<>> /\ base.segs = <<>>
  THEN [abs |-> TRUE, segs |-> ref.segs]
  ELSE [abs  |-> base.abs,
        segs |-> SubSeq(base.segs, 1, Len(base.segs) - 1) \o ref.segs]
Join(base, r, strict) ==
  LET scheme == IF ~strict /\ r.scheme = base.scheme THEN <<>> ELSE r.scheme
      merged == MergeSegs(base, r)
      T(s, a, abs, segs, q) == [scheme |-> s, auth |-> a, abs |-> abs, segs |-> segs,
                                query |-> q, fragment |-> r.fragment]
  IN IF scheme # <<>>
     THEN T(scheme, r.auth, r.abs, RemoveDots(r.segs), r.query)
     ELSE IF r.auth # <<>>
     THEN T(base.scheme, r.auth, r.abs, RemoveDots(r.segs), r.query)
     ELSE IF r.segs = <<>>
     THEN T(base.scheme, base.auth, base.abs, base.segs,
            IF r.query # <<>> THEN r.query ELSE base.query)
     ELSE IF r.abs
     THEN T(base.scheme, base.auth, TRUE, RemoveDots(r.segs), r.query)
     ELSE T(base.scheme, base.auth, merged.abs, RemoveDots(merged.segs), r.query)

\* --- the same on texts, as the RFC's pseudocode has it ------------------------------
\* A rootless path is normalised as though it were rooted: the RFC's algorithm
\* would turn the path of "s:a/b" resolved with "../c" into an absolute path.
NormText(t) == IF t = <<>> \/ t[1] = SLASH THEN RfcRemoveDots(t)
               ELSE Tail(RfcRemoveDots(<<SLASH>> \o t))
TextOf(scheme, auth, path, query, fragment) ==
  Opt1(scheme, <<>>, <<COLON>>)
  \o (IF auth = <<>> THEN <<>> ELSE <<SLASH, SLASH>> \o AuthText(auth[1]))
  \o path \o Opt1(query, <<QMARK>>, <<>>) \o Opt1(fragment, <<HASH>>, <<>>)
JoinText(b, r, strict) ==
  LET rscheme == IF ~strict /\ r.scheme = b.scheme THEN <<>> ELSE r.scheme
      bpath == PathText(b.abs, b.segs)
      rpath == PathText(r.abs, r.segs)
  IN IF rscheme # <<>> THEN TextOf(rscheme, r.auth, NormText(rpath), r.query, r.fragment)
     ELSE IF r.auth # <<>> THEN TextOf(b.scheme, r.auth, NormText(rpath), r.query, r.fragment)
     ELSE IF rpath = <<>>
     THEN TextOf(b.scheme, b.auth, bpath,
                 IF r.query # <<>> THEN r.query ELSE b.query, r.fragment)
     ELSE IF rpath[1] = SLASH
     THEN TextOf(b.scheme, b.auth, NormText(rpath), r.query, r.fragment)
     ELSE TextOf(b.scheme, b.auth, NormText(MergeText(b.auth # <<>>, bpath, rpath)),
                 r.query, r.fragment)
=============================================================================
