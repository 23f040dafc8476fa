"""C13, C14, C15: encoding and decoding of parts; histories of both."""
import random
import re

from . import core, gen
from .text_checks import code_points, puny_text
from .uri_checks import rng


def driver():
    return core.build("parts_drv", ["parts_drv.cpp"], core.LIB_ALL)


def fuzzer():
    return core.fuzz_build("parts_fuzz", ["parts_fuzz.cpp"], core.LIB_ALL)


def utf8(r):
    """Scalar values, seldom a '.'"""
    cps = [c for c in code_points(r) if c < 0x110000 and not 0xD800 <= c < 0xE000]
    return "".join(map(chr, cps)).encode()


BAD_UTF8 = [b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xfe"]
XN = [b"xn--", b"xn---", b"xn--a", b"xn--9", b"xn--9ca", b"xn--mnchen-3ya", b"xn--a-", b"xn--a-9", b"Xn--9ca", b"XN--9CA", b"xn-",
      b"xN--9ca", b"xn--\x80", b"xn--99999999a", b"xn--999999999999999999999a", b"xn--a-b-9ca", b"xn-- ", b"xn--!", b"axn--9ca",
      b"xn--xn---epa", b"xn--xn--9ca"]


def label(r, plain):
    k = r.random()
    if k < 0.3:
        s = r.choice([b"", b"a", b"example", b"com", b"A-b", b"-", b"--", b"127", b"xn", b"x%41", b"%"])
    elif k < 0.75:
        s = utf8(r)
    elif plain:
        s = gen.run_of(r, gen.UNRESERVED, gen.length(r))
    elif k < 0.85:
        s = r.choice(BAD_UTF8) + r.choice([b"", b"a", "é".encode()])
        if r.random() < 0.5:
            s = r.choice([b"a", "é".encode(), b""]) + s
    elif k < 0.93:
        s = r.choice(XN)
    else:
        s = b"xn--" + puny_text(r)
    return s.replace(b".", b"-") if r.random() < 0.9 else s


def host(r, plain=False):
    if r.random() < 0.08:
        return gen.host(r)
    n = r.choice([1, 1, 2, 2, 3, 4, 6]) if r.random() < 0.97 else r.choice([20, 33])
    return b".".join(label(r, plain) for _ in range(n))


def text(r):
    k = r.random()
    if k < 0.2:
        return b""
    if k < 0.4:
        return gen.run_of(r, gen.UNRESERVED, gen.length(r))
    if k < 0.6:
        return bytes(r.randrange(256) for _ in range(gen.length(r)))
    if k < 0.8:
        return b"".join(r.choice([b"%41", b"%", b"%4", b"%zz", b"%2e", b"a", b"/", b" ", b"%00", b"%e9", b"%25", b"%%", b"?", b"#",
                                  b"'", b"\"", b"`", b":", b"@", b"\x7f", b"\x80"]) for _ in range(gen.length(r)))
    return gen.run_of(r, gen.PCHAR, gen.length(r), 0.3)


def value(r, plain=False):
    def o(f, p):
        return f(r) if r.random() < p else None
    auth = None
    if r.random() < 0.75:
        auth = (o(text, 0.4), host(r, plain), o(lambda x: r.choice([b"", b"80", b"8080"]) if plain or x.random() < 0.8 else text(x), 0.4))
    k = r.random()
    n = r.randrange(5) if k < 0.8 else r.choice([24, 25, 26, 27, 28, 31, 32, 33, 38])
    segs = [text(r) for _ in range(n)]
    if n > 20 and r.random() < 0.5:   # mostly plain, so that what differs stands alone
        segs = [b"s" if r.random() < 0.9 else s for s in segs]
    sch = o(lambda x: gen.scheme(x) if plain or x.random() < 0.8 else text(x), 0.5)
    if plain and sch:
        sch = sch.replace(b"%", b"")
    return dict(scheme=sch, auth=auth, abs_=r.random() < 0.5, segs=segs, query=o(text, 0.4), fragment=o(text, 0.4))


def small(r, plain):
    """A value whose texts are short"""
    while True:
        v = value(r, plain)
        if len(v["segs"]) < 20 and sum(map(len, v["segs"])) < 100 and (not v["auth"] or len(v["auth"][1]) < 60):
            return v


def line(r, plain=False):
    return gen.parts_line(**value(r, plain), null=lambda: r.random() < 0.4)


def single_ops(check, n, salt):
    r = rng(check, salt)
    ops = []
    for k in range(n):
        kinds = r.choice(["sv", "vs", "ss", "vv"])
        ops.append(f"sess {kinds} 3 L 0 {line(r, k % 3 == 0)} E 0 0 1 D 1 1 2")
        if k % 2 == 0:
            ops.append(f"sess {kinds} 2 L 0 {line(r)} D 0 0 1")
    # each byte in each component; each label of a list alone and beside others
    for c in range(256):
        b = bytes([c])
        for p in (dict(scheme=b, auth=(b, b, b), segs=[b], query=b, fragment=b),
                  dict(scheme=b"a" + b, auth=(b + b"u", b"h." + b, b"1" + b), segs=[b"", b + b"x"], query=b"q" + b, fragment=b"%" + b)):
            ops.append(f"sess sv 3 L 0 {gen.parts_line(**p)} E 0 0 1 D 1 1 2")
            ops.append(f"sess v 2 L 0 {gen.parts_line(**p)} D 0 0 1")
    for x in XN + BAD_UTF8:
        for h in (x, b"a." + x, x + b".a", x + b"." + x, "é.".encode() + x, b"." + x + b"."):
            ops.append(f"sess vs 3 L 0 {gen.parts_line(auth=(None, h, None))} E 0 0 1 D 1 1 2")
            ops.append(f"sess s 2 L 0 {gen.parts_line(auth=(None, h, None))} D 0 0 1")
    # one character, label or segment that matters among many that do not
    for n, q in gen.places(r, 40, 300, check.thorough):
        one = r.choice([b" ", "é".encode(), b"%41", b"\x7f", b"%", b"\xff", b"^"])
        b = b"a" * q + one + b"a" * (n - 1 - q)
        segs = [b"s"] * n
        segs[q] = one
        labels = [r.choice([b"a", b"b1"])] * n
        labels[q] = r.choice(["é".encode(), b"xn--9ca", b"", b"xn--", b"xn--a-9", b"\xff"])
        p = r.choice([dict(segs=[b]), dict(query=b), dict(fragment=b), dict(auth=(b, b"h", None)), dict(auth=(None, b, None)), dict(segs=segs),
                      dict(auth=(None, b".".join(labels), None)), dict(scheme=b), dict(auth=(None, b"h", b))])
        ops.append(f"sess {r.choice(['sv', 'vs'])} 3 L 0 {gen.parts_line(**p)} E 0 0 1 D 1 1 2")
        ops.append(f"sess v 2 L 0 {gen.parts_line(**p)} D 0 0 1")
    # which segments need work, around the 26th
    for n in (25, 26, 27, 28, 33):
        for hot in range(max(0, n - 10), n):
            for other in (b"x", b""):
                segs = [b"s"] * n
                segs[hot] = b"a b%41"
                segs[r.randrange(n)] = other
                ops.append(f"sess sv 3 L 0 {gen.parts_line(segs=segs, abs_=True, query=other)} E 0 0 1 D 1 1 2")
                ops.append(f"sess v 2 L 0 {gen.parts_line(segs=segs, abs_=True)} D 0 0 1")
    return ops


def session_ops(check, n):
    """TLC draws the histories; here they are given values."""
    hists = core.behaviours("MC_Session", "MC_Session_gen.cfg", "HIST", n, 10, check.seed)
    r = rng(check, "session")
    r.shuffle(hists)
    by = {}     # not many which differ in the last call only
    for h in hists:
        by.setdefault(h[:h.rindex("<<")], []).append(h)
    hists = [h for hs in by.values() for h in hs[:2]]
    ops = []
    for h in hists:
        acts = re.findall(r'<<"([LEDJ])", ([\d, ]+)>>', h)
        kinds = r.choice(["sv", "vs", "ss", "vv"])
        out = []
        for a, args in acts:
            x = [int(y) for y in args.split(",")]
            if a == "L":
                v = value(r, r.random() < 0.6) if r.random() < 0.03 else small(r, r.random() < 0.6)
                out.append(f"L {x[0]} {gen.parts_line(**v, null=lambda: r.random() < 0.4)}")
            elif a == "J":
                out.append(f"J {x[0]} {r.choice([0, 1, 14, 15, 16, 40, 300])}")
            else:
                out.append(" ".join([a] + [str(y) for y in x]))
        ops.append(f"sess {kinds} 3 " + " ".join(out))
    check.count("histories_drawn_by_tlc", len(hists))
    return ops


def codec_check(check, prop):
    n = 25_000 if check.thorough else 1_500
    found = {}

    def drv():
        found["drv"] = driver()

    def models():
        check.model("MC_PartsCodec", cfg=f"MC_PartsCodec_{check.tier}.cfg")
        if prop == "C15":
            check.model("MC_Session", cfg=f"MC_Session_{check.tier}.cfg")

    def hist():
        if prop == "C15":
            found["hist"] = session_ops(check, 8_000 if check.thorough else 800)

    def fz():
        exe = fuzzer()
        r = rng(check, "seeds")
        seeds = [bytes([r.randrange(2)]) + core.fz_parts(**value(r, k % 2 == 0)) for k in range(60)]
        found["fuzz"] = core.fuzz(check, exe, "sess", seeds, {"VF_OP": "d" if prop == "C14" else "ed"},
                                  seconds=60 if check.thorough else 7, procs=4, max_len=400, cap=8000 if check.thorough else 1500)
    core.parallel(drv, models, fz, hist)
    ops = single_ops(check, n if prop != "C15" else n // 3, "single") + found["fuzz"] + found.get("hist", [])
    check.judge_ops("Trace_Session", found["drv"], ops, {prop}, "codec", need_abnf=False)


def c13(check):
    codec_check(check, "C13")


def c14(check):
    codec_check(check, "C14")


def c15(check):
    codec_check(check, "C15")
