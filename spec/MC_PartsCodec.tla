---------------------------- MODULE MC_PartsCodec ----------------------------
(***************************************************************************)
(* What encode() and decode() guarantee, over small hosts and components.   *)
(***************************************************************************)
EXTENDS PartsCodec, TLC
CONSTANTS MaxHost, MaxText
\* a x n - . the two bytes of U+00E9, a byte that is never UTF-8
HostBytes == {97, 120, 45, DOT, 195, 169, 255}
XnBytes   == {97, 57, 45, DOT, 122}
TextBytes == {97, 37, 52, 49, 47, 32, 233}   \* a % 4 1 / space 0xE9

Blank == [scheme |-> <<>>, auth |-> <<>>, abs |-> TRUE, segs |-> <<>>, query |-> <<>>, fragment |-> <<>>]
Auth(u, h, p) == <<[userinfo |-> u, host |-> h, port |-> p]>>
VARIABLES mode, s
p == CASE mode = "host"  -> [Blank EXCEPT !.auth = Auth(<<>>, s, <<>>)]
       [] mode = "xn"    -> [Blank EXCEPT !.auth = Auth(<<>>, XnPrefix \o s, <<>>)]
       [] mode = "path"  -> [Blank EXCEPT !.segs = <<s, <<>>, s>>, !.scheme = <<s>>, !.query = <<s>>]
       [] mode = "other" -> [Blank EXCEPT !.auth = Auth(<<s>>, <<>>, <<s>>), !.fragment = <<s>>]
Bytes1 == CASE mode = "host" -> HostBytes [] mode = "xn" -> XnBytes [] OTHER -> TextBytes
Most == CASE mode = "host" -> MaxHost [] mode = "xn" -> MaxHost - 1 [] OTHER -> MaxText
Init == mode \in {"host", "xn", "path", "other"} /\ s = <<>>
Next == Len(s) < Most /\ \E c \in Bytes1 : s' = Append(s, c) /\ UNCHANGED mode

Enc == EncodeParts(p)
RoundTrip == Invertible(p) => DecodeParts(Enc) = [st |-> "ok", p |-> <<p>>]
Keeps(q) == /\ (q.scheme = <<>>) = (p.scheme = <<>>) /\ Len(q.segs) = Len(p.segs) /\ q.abs = p.abs
            /\ (q.auth = <<>>) = (p.auth = <<>>) /\ (q.query = <<>>) = (p.query = <<>>)
            /\ (q.fragment = <<>>) = (p.fragment = <<>>)
            /\ p.auth # <<>> => /\ (q.auth[1].userinfo = <<>>) = (p.auth[1].userinfo = <<>>)
                                /\ (q.auth[1].port = <<>>) = (p.auth[1].port = <<>>)
                                /\ Len(SelectSeq(q.auth[1].host, LAMBDA c : c = DOT)) >=
                                     Len(SelectSeq(p.auth[1].host, LAMBDA c : c = DOT))
Shape == /\ Keeps(Enc)
         /\ DecodeParts(p).st = "ok" => Keeps(DecodeParts(p).p[1])
\* The encoded host is ASCII, with as many labels as there were.
Ascii == p.auth # <<>> => /\ \A k \in 1..Len(Enc.auth[1].host) : Enc.auth[1].host[k] < 128
                          /\ Len(Labels(Enc.auth[1].host)) = Len(Labels(p.auth[1].host))
\* Encoding an encoded host changes nothing; of the rest it encodes "%" again.
Stable == p.auth # <<>> => HostEncode(Enc.auth[1].host) = Enc.auth[1].host
\* An encoded host always decodes, unless it already had an encoded label.
Decodes == Invertible(p) => DecodeParts(Enc).st = "ok"
SplitJoin == p.auth # <<>> => Dotted(Labels(p.auth[1].host)) = p.auth[1].host
=============================================================================
