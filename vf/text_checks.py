"""C09..C12: percent-encoding and Punycode."""
import itertools

from . import core, gen
from .uri_checks import rng

SETS = ["none", "fragment", "query", "special", "path", "userinfo", "component", "form"]


# --- percent-encoding ---------------------------------------------------------------------
def pct_driver():
    return core.build("pct_drv", ["pct_drv.cpp"], ["pctencode"])


def pct_fuzzer():
    return core.fuzz_build("pct_fuzz", ["pct_fuzz.cpp"], ["pctencode"])


def pct_text(r):
    """Bytes with many escapes, near-escapes and other bytes."""
    out = bytearray()
    n = gen.length(r, 10)
    mode = r.random()
    while len(out) < n:
        k = r.random()
        if k < 0.35:
            out += b"%" + bytes(r.choice(b"0123456789abcdefABCDEF") for _ in range(2))
        elif k < 0.45:
            out += r.choice([b"%", b"%%", b"%4", b"%g", b"%4g", b"%G4", b"%/0", b"%0:", b"%@0", b"%`a", b"%:0", b"%a/"])
        elif mode < 0.3:
            out.append(r.randrange(256))
        else:
            out.append(r.choice(b"ab4F-._~!$&'()*+,;=:@/?#[]<>\"\\^`{|} \x00\x1f\x7f\x80\xff"))
    return bytes(out)


def pct_check(check, prop):
    n = 60_000 if check.thorough else 3_000
    found = {}

    def drv():
        found["drv"] = pct_driver()

    def models():
        check.model("MC_Pct", cfg=f"MC_Pct_{check.tier}.cfg")

    def fz():
        r = rng(check, "seeds")
        exe = pct_fuzzer()
        sec = 60 if check.thorough else 5
        cap = 10000 if check.thorough else 1500
        found["fuzz"] = core.fuzz(check, exe, "dec", [pct_text(r)[:80] for _ in range(40)], {"VF_OP": "dec"}, seconds=sec,
                                  procs=3, max_len=160, cap=cap)
        found["fuzz"] += core.fuzz(check, exe, "enc", [bytes([k]) + pct_text(r)[:80] for k in range(40)], {"VF_OP": "enc"},
                                   seconds=sec, procs=3, max_len=160, cap=cap)
    core.parallel(drv, models, fz)
    r = rng(check, "pct")
    ops = list(found["fuzz"])
    # each byte with each set, alone and between others
    for s in SETS:
        for c in range(256):
            ops.append(f"enc {s} " + gen.hx(bytes([c])))
        for c in range(0, 256, 32):
            ops.append(f"enc {s} " + gen.hx(bytes(range(c, c + 32)) * 2))
        ops.append(f"enc {s} =")
        ops.append(f"enc {s} ~")
    # each pair of bytes after a percent sign
    for x in range(256):
        for y in range(0, 256, 64):
            ops.append("dec " + gen.hx(b"".join(bytes([37, x, z, 122]) for z in range(y, y + 64))))
    # every short string over an alphabet with a byte of each kind
    for k in range(0, 6 if check.thorough else 5):
        for t in itertools.product(b"%4fFg\xc8", repeat=k):
            ops.append("dec " + gen.hx(bytes(t)))
    for _ in range(n):
        b = pct_text(r)
        ops.append("dec " + gen.hx(b))
        ops.append(f"enc {r.choice(SETS)} " + gen.hx(b if r.random() < 0.7 else bytes(r.randrange(256) for _ in b)))
    # one character that matters among many that do not
    for k, p in gen.places(r, 48, 700, check.thorough):
        c = r.choice([b" ", b"\xe9", b"\x7f", b"%", b"\x1f", b"\"", b"\xff"])
        ops.append(f"enc {r.choice(SETS)} " + gen.hx(b"a" * p + c + b"a" * (k - 1 - p)))
        ops.append("dec " + gen.hx(b"a" * p + r.choice([b"%41", b"%4g", b"%c3", b"%%41"]) + b"a" * (k - 1 - p)))
    for k in [300, 1000, 2000] + [8000] * check.thorough:   # long ones
        b = b"".join(pct_text(r) for _ in range(k // 6))[:k]
        ops.append("dec " + gen.hx(b))
        ops.append(f"enc {r.choice(SETS)} " + gen.hx(b))
    r.shuffle(ops)
    kept = {"enc": 0, "dec": 0}
    other = "dec" if prop == "C09" else "enc"   # the other operation matters for the round trip only
    limit = 10 ** 9 if check.thorough else (500 if prop == "C09" else 2_500)
    sel = []
    for o in ops:
        k = o[:3]
        if k != other or kept[k] < limit:
            kept[k] += 1
            sel.append(o)
    ops = sel
    check.judge_ops("Trace_Pct", found["drv"], ops, {prop}, "pct", need_abnf=False)
    check.cov["exhaustive"] = "each byte x each set; each pair of bytes after '%'; short strings over a 6 byte alphabet"


def c09(check):
    pct_check(check, "C09")


def c10(check):
    pct_check(check, "C10")


# --- Punycode ------------------------------------------------------------------------------
def puny_driver():
    return core.build("puny_drv", ["puny_drv.cpp"], ["punycode"])


def puny_fuzzer():
    return core.fuzz_build("puny_fuzz", ["puny_fuzz.cpp"], ["punycode"])


EDGES = [0x7F, 0x80, 0x81, 0xFF, 0x100, 0x7FF, 0x800, 0x2019, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000,
         0x1F600, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF]


def code_points(r):
    n = gen.length(r, 8)
    mode = r.random()
    base = r.choice([0x80, 0x3B1, 0x430, 0x4E00, 0xAC00, 0x1F600, 0xFFFFFF00, 0x10FFFF - 300])
    out = []
    for _ in range(n):
        k = r.random()
        if mode < 0.1:
            out.append(r.choice(b"abc-XYZ019.\x00\x7f"))
        elif k < 0.35:
            out.append(r.choice(b"abcxyz-019AZ"))
        elif k < 0.8:
            out.append(base + r.randrange(r.choice([2, 10, 200])))
        elif k < 0.93:
            out.append(r.choice(EDGES))
        else:
            out.append(r.randrange(2 ** r.choice([8, 11, 16, 21, 32])))
    return out


def cps_token(cps):
    return "@" + ",".join(f"{c:x}" for c in cps)


def py_vlis(deltas, lit):
    """Writes the given deltas (of any size) as variable-length integers."""
    out = bytearray(lit + b"-" if lit else b"")
    bias = 72
    h = len(lit)
    first = True
    for d in deltas:
        q = d
        k = 36
        while True:
            t = 1 if k <= bias else 26 if k >= bias + 26 else k - bias
            if q < t:
                break
            v = t + (q - t) % (36 - t)
            out.append(b"abcdefghijklmnopqrstuvwxyz0123456789"[v])
            q = (q - t) // (36 - t)
            k += 36
        out.append(b"abcdefghijklmnopqrstuvwxyz0123456789"[q])
        dd = d // (700 if first else 2)
        h += 1
        dd += dd // h
        k = 0
        while dd > 455:
            dd //= 35
            k += 36
        bias = k + 36 * dd // (dd + 38)
        first = False
    return bytes(out)


def puny_text(r):
    """A string to decode: valid ones, nearly valid ones, numbers around the limits, noise."""
    k = r.random()
    if k < 0.35:
        cps = code_points(r)
        lit = bytes(c for c in cps if c < 128)
        others = sorted((c, p) for p, c in enumerate(cps) if c >= 128)
        n, i, deltas = 128, 0, []
        for m, (c, p) in enumerate(others):
            before = sum(1 for q, x in enumerate(cps[:p]) if x < 128 or (x, q) < (c, p))
            deltas.append((c - n) * (len(lit) + m + 1) + before - i)
            n, i = c, before + 1
        s = py_vlis(deltas, lit)
    elif k < 0.6:
        lit = bytes(r.choice(b"ab-9Z") for _ in range(r.randrange(5)))
        h = len(lit)
        deltas = []
        n = 128
        i = 0
        for m in range(r.randrange(1, 6)):
            kind = r.random()
            if kind < 0.35:    # close to the last code point
                d = (2 ** 32 - n) * (h + 1) - i + r.choice([-40, -2, -1, 0, 1, 2]) * r.choice([1, 1, h + 1])
            elif kind < 0.55:  # close to the last integer
                d = 2 ** 64 - i + r.choice([-700, -36, -2, -1, 0, 1, 2, 35, 2 ** 40])
            elif kind < 0.8:
                d = r.randrange(2 ** r.randrange(1, 36))
            else:
                d = r.randrange(60)
            d = max(d, 0)
            deltas.append(d)
            h += 1
            n += (i + d) // h
            i = (i + d) % h + 1
            if n >= 2 ** 32:
                break
        s = py_vlis(deltas, lit)
        if r.random() < 0.3:
            s += bytes(r.choice(b"a9zb0-") for _ in range(r.randrange(4)))
    elif k < 0.75:
        s = bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(gen.length(r, 12)))
    elif k < 0.85:
        s = r.choice([b"", b"-", b"a-", b"ab-"]) + bytes([r.choice(b"9zZ8y")]) * r.randrange(1, 30)
    else:
        s = bytes(r.choice(b"ab-Zz09.\x80\xff{@`[/:! ") for _ in range(gen.length(r, 8)))
    k = r.random()
    if k < 0.15:
        s = bytes(c ^ 0x20 if chr(c).isalpha() and r.random() < 0.5 and c < 128 else c for c in s)
    elif k < 0.25 and s:
        b = bytearray(s)
        b[r.randrange(len(b))] = r.choice(b"-!9aZ\x80\xe1") if r.random() < 0.7 else r.randrange(256)
        s = bytes(b)
    elif k < 0.32:
        s = s[:r.randrange(len(s) + 1)]
    elif k < 0.36:
        s = b"-" + s
    return s


def puny_check(check, prop):
    n = 30_000 if check.thorough else 2_500
    found = {}

    def drv():
        found["drv"] = puny_driver()

    def models():
        check.model("MC_Big", cfg="MC_Big.cfg")
        check.model("MC_Punycode", cfg=f"MC_Punycode_{check.tier}.cfg")

    def fz():
        r = rng(check, "seeds")
        exe = puny_fuzzer()
        sec = 60 if check.thorough else 6
        if prop == "C12":
            found["fuzz"] = core.fuzz(check, exe, "pdec", [puny_text(r)[:60] for _ in range(60)], {"VF_OP": "pdec"}, seconds=sec,
                                      procs=4, max_len=80, cap=8000 if check.thorough else 1500)
        else:
            found["fuzz"] = core.fuzz(check, exe, "penc", [bytes(r.randrange(256) for _ in range(20)) for _ in range(30)],
                                      {"VF_OP": "penc"}, seconds=sec, procs=4, max_len=80,
                                      cap=8000 if check.thorough else 1500)
    core.parallel(drv, models, fz)
    r = rng(check, "puny")
    ops = list(found["fuzz"])
    if prop == "C11":
        pool = [0x61, 0x2D, 0x80, 0x81, 0x10FFFF, 0xFFFFFFFF]
        for k in range(0, 5 if check.thorough else 4):
            ops += ["penc " + cps_token(x) for x in itertools.product(pool, repeat=k)]
        ops += ["penc " + cps_token([c]) for c in list(range(0, 0x180)) + EDGES]
        ops += ["penc " + cps_token([0x61, c, c + 1]) for c in EDGES[:-1]]
        ops += ["penc " + cps_token(code_points(r)) for _ in range(n)]
        for k, q in gen.places(r, 40, 300, check.thorough):
            ops.append("penc " + cps_token([0x61] * q + [r.choice(EDGES[1:])] + [0x61] * (k - 1 - q)))
    else:
        for k in range(0, 4 if check.thorough else 3):
            for x in itertools.product(b"-0189abyzABYZ/:@[`{\x80" if k < 3 else b"-09azAZ!", repeat=k):
                ops.append("pdec " + gen.hx(bytes(x)))
        for c in range(256):   # each byte as a digit, in the literal part, after the delimiter
            b = bytes([c])
            ops += ["pdec " + gen.hx(x) for x in (b, b + b"-", b"a-" + b, b + b"a", b"9" + b + b"a", b"b-9" + b, b"a" + b + b"-b")]
        ops += ["pdec " + gen.hx(puny_text(r)) for _ in range(2 * n)]
        for k, q in gen.places(r, 40, 400, check.thorough):
            ops.append("pdec " + gen.hx(b"a" * q + r.choice([b"\x80", b"\xff", b"-", b"!", b"9", b"Z"]) + b"a" * (k - 1 - q) + r.choice([b"", b"-9ca", b"-"])))
    check.judge_ops("Trace_Puny", found["drv"], ops, {prop}, "puny", need_abnf=False)


def c11(check):
    puny_check(check, "C11")


def c12(check):
    puny_check(check, "C12")
