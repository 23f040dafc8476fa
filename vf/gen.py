"""Generators of operation lines. All randomness comes from the Random passed in."""

UNRESERVED = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"
SUBDELIMS = b"!$&'()*+,;="
PCHAR = UNRESERVED + SUBDELIMS + b":@"
QCHAR = PCHAR + b"/?"


def hx(b):
    return "=" + bytes(b).hex()


def opt(b):
    return "-" if b is None else hx(b)


def length(r, small=6):
    """Mostly short; now and then around a power of two."""
    k = r.random()
    if k < 0.80:
        return r.randrange(small)
    if k < 0.95:
        return r.randrange(20)
    if k < 0.99:
        return r.choice([15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65])
    return r.choice([100, 127, 128, 129, 255, 256, 257])


def places(r, upto, n, thorough=False):
    """n pairs (length, position): something rare at every position of texts of every length
    up to upto, which is where code that takes several characters at a time goes wrong."""
    every = [(k, p) for k in range(1, upto + 1) for p in range(k)]
    if not thorough and len(every) > n:
        # the last positions of each length always
        last = [x for x in every if x[1] == x[0] - 1]
        rest = [x for x in every if x[1] != x[0] - 1]
        every = last + r.sample(rest, max(0, n - len(last)))
    for k in (63, 64, 65, 127, 128, 129, 255, 256, 257):
        every += [(k, p) for p in {0, k - 1, k - 2, r.randrange(k), r.randrange(k)}]
    return every


def run_of(r, chars, n, pct=0.12):
    out = bytearray()
    mode = r.random()
    while len(out) < n:
        if r.random() < pct:
            out += b"%" + bytes([r.choice(b"0123456789abcdefABCDEF"), r.choice(b"0123456789abcdefABCDEF")])
        elif mode < 0.5:
            out.append(r.choice(b"ab1."))if set(b"ab1.") <= set(chars) else out.append(r.choice(chars))
        else:
            out.append(r.choice(chars))
    return bytes(out)


SCHEMES = [b"a", b"http", b"s", b"S", b"mailto", b"urn", b"x-y+z.1", b"file", b"A1+-.", b"http"]


def scheme(r):
    if r.random() < 0.6:
        return r.choice(SCHEMES)
    return bytes([r.choice(b"abcxyzABCXYZ")]) + run_of(r, b"abz019+-.AZ", length(r), 0)


def h16(r):
    return bytes(r.choice(b"0123456789abcdefABCDEF") for _ in range(r.choice([1, 1, 2, 3, 4, 4])))


def ipv4(r):
    def o():
        return str(r.choice([0, 1, 9, 10, 19, 42, 99, 100, 127, 199, 200, 249, 250, 255, 255, 256, 260, 300, 999])
                   if r.random() < 0.25 else r.randrange(256)).encode()
    return b".".join(o() for _ in range(4))


def ipv6(r):
    total = r.randrange(0, 9)
    groups = [h16(r) for _ in range(total)]
    if total >= 1 and r.random() < 0.3:
        groups[-1] = ipv4(r)
    if r.random() < 0.75:
        k = r.randrange(0, total + 1)
        return b":".join(groups[:k]) + b"::" + b":".join(groups[k:])
    return b":".join(groups)


def host(r):
    k = r.random()
    if k < 0.15:
        return b""
    if k < 0.30:
        return ipv4(r)
    if k < 0.36:
        return ipv4(r) + run_of(r, b"ab.-1", r.randrange(1, 5))
    if k < 0.60:
        return b"[" + ipv6(r) + b"]"
    if k < 0.68:
        return (b"[" + r.choice([b"v", b"V"]) + bytes(r.choice(b"0123456789abcdefABCDEF") for _ in range(r.randrange(1, 4)))
                + b"." + run_of(r, UNRESERVED + SUBDELIMS + b":", r.randrange(1, 6), 0) + b"]")
    return run_of(r, UNRESERVED + SUBDELIMS, length(r, 12))


HOSTS = [b"[1:2:3:4:5:6:7:8]", b"[::2:3:4:5:6:7]", b"[1::3:4:5:6:7]", b"[1:2::4:5:6:7]", b"[1:2:3::5:6:7]", b"[1:2:3:4::6:7]", b"[1:2:3:4:5::7]",
         b"[1:2:3:4:5:6::7]", b"[1:2:3:4:5:6:7::]", b"[::]", b"[::ffff:192.168.255.1]", b"[1:2:3:4:5:6:250.99.1.0]", b"[abcd:ef01::]", b"[v1.a:b]",
         b"[vF1.x]", b"1.2.3.4", b"255.249.199.99", b"a%41.b:80", b"u%20:p@h:1"]
SEGS = [b"", b"", b".", b".", b"..", b"..", b"a", b"b", b"c", b"...", b".a", b"a.", b"..a", b"a..", b"%2e", b"%2E%2e",
        b"a:b", b"a@b", b";x=1", b"%2F", b":", b"1:"]


def segment(r):
    if r.random() < 0.7:
        return r.choice(SEGS)
    return run_of(r, PCHAR, length(r))


def segments(r, most=7):
    k = r.random()
    if k < 0.02:
        n = r.choice([25, 26, 27, 31, 32, 33, 40, 64, 65])
    else:
        n = r.randrange(most)
    return [segment(r) for _ in range(n)]


def authority(r):
    u = run_of(r, UNRESERVED + SUBDELIMS + b":", length(r)) if r.random() < 0.35 else None
    p = r.choice([b"", b"0", b"8080", b"65535", b"00", b"123456789012345678901234567890"]) if r.random() < 0.4 else None
    return u, host(r), p


def query(r):
    return run_of(r, QCHAR, length(r, 8))


def uri(r, rel=None):
    """A text which is nearly always a URI-reference (rel: force relative/absolute)."""
    out = b""
    has_scheme = r.random() < 0.6 if rel is None else not rel
    if has_scheme:
        out += scheme(r) + b":"
    segs = segments(r)
    if r.random() < 0.5:
        u, h, p = authority(r)
        out += b"//" + (u + b"@" if u is not None else b"") + h + (b":" + p if p is not None else b"")
        out += b"".join(b"/" + s for s in segs)
    elif r.random() < 0.5:
        if segs and segs[0] == b"":
            segs = segs[:1] if r.random() < 0.3 else [b"a"] + segs[1:]
        out += b"/" + b"/".join(segs)
    else:
        if segs and segs[0] == b"":
            segs[0] = b"."
        if segs and not has_scheme:
            segs[0] = segs[0].replace(b":", b"")
            if segs[0] == b"":
                segs[0] = b".."
        out += b"/".join(segs)
    if r.random() < 0.35:
        out += b"?" + query(r)
    if r.random() < 0.35:
        out += b"#" + query(r)
    return out


INTERESTING = b"/:?#[]@%.1a-\x00\x7f\x80\xff \\\"<>^`{|}~!"


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.randrange(1, 4)):
        k = r.randrange(5)
        at = r.randrange(len(b) + 1)
        if k == 0:
            b[at:at] = bytes([r.choice(INTERESTING)])
        elif k == 1 and b:
            b[at % len(b)] = r.randrange(256)
        elif k == 2 and b:
            del b[at % len(b):at % len(b) + r.randrange(1, 4)]
        elif k == 3 and b:
            s = r.randrange(len(b))
            b[at:at] = b[s:s + r.randrange(1, 10)]
        else:
            b[at:at] = r.choice([b"//", b"::", b"/../", b"/./", b"%zz", b"%4", b"@", b"[::]", b":80", b"?", b"#", b"."])
    return bytes(b)


# --- parts ------------------------------------------------------------------------------
def parts_line(scheme=None, auth=None, abs_=False, segs=(), query=None, fragment=None, null=None):
    """null: a function deciding whether an empty component is written as a null view."""
    def o(b):
        if b is None:
            return "-"
        if b == b"" and null and null():
            return "~"
        return hx(b)
    u, h, p = auth if auth is not None else (None, None, None)
    return " ".join([o(scheme), o(u), o(h), o(p), "1" if abs_ else "0",
                     ",".join(o(s) for s in segs) if segs else "-", o(query), o(fragment)])


def canonical(r):
    """Parts as split_reference() returns them."""
    sch = scheme(r) if r.random() < 0.7 else None
    auth = authority(r) if r.random() < 0.5 else None
    segs = segments(r)
    abs_ = False
    if segs:
        abs_ = auth is not None or r.random() < 0.5
        if auth is None:
            if abs_ and segs[0] == b"" and len(segs) > 1:
                segs[0] = b"x"
            if not abs_ and segs[0] == b"":
                segs[0] = r.choice([b".", b"..", b"x"])
            if not abs_ and sch is None:
                segs[0] = segs[0].replace(b":", b"x")
    return dict(scheme=sch, auth=auth, abs_=abs_, segs=segs,
                query=query(r) if r.random() < 0.4 else None,
                fragment=query(r) if r.random() < 0.4 else None)


def any_parts(r):
    """Parts as a caller may assemble them: each component may break its rule."""
    p = canonical(r)
    if r.random() < 0.5:
        p["abs_"] = r.random() < 0.5
    if r.random() < 0.2:
        p["segs"] = segments(r)
    if r.random() < 0.45:
        which = r.randrange(7)
        bad = lambda b: mutate(r, b or b"a")       # noqa: E731
        if which == 0:
            p["scheme"] = r.choice([b"", b"1a", b"a_b", b"a b", b"-", b"a:", b"a/b", bad(p["scheme"])])
        elif which == 1 and p["auth"]:
            u, h, po = p["auth"]
            p["auth"] = (bad(u), h, po)
        elif which == 2 and p["auth"]:
            u, h, po = p["auth"]
            p["auth"] = (u, bad(h), po)
        elif which == 3 and p["auth"]:
            u, h, po = p["auth"]
            p["auth"] = (u, h, r.choice([b"a", b"8x", b"-1", b"80 ", b" 80", b":", bad(po)]))
        elif which == 4 and p["segs"]:
            k = r.randrange(len(p["segs"]))
            p["segs"][k] = r.choice([b"/", b"a/b", b"?", b"#", b"%", b"%4", b"%zz", b"[", b"a b", bad(p["segs"][k])])
        elif which == 5:
            p["query"] = r.choice([b"#", b"[", b"%", b"a%2", b"\x80", bad(p["query"])])
        else:
            p["fragment"] = r.choice([b"#", b"]", b"%", b"a%2g", b"\xff", bad(p["fragment"])])
    return p
