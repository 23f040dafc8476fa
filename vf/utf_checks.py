"""C16..C19, C25: icubaby's transcoders."""
import itertools

from . import core
from .uri_checks import rng

FORMS = ("8", "16", "32")


def driver():
    return core.build("utf_drv", ["utf_drv.cpp", "utf_f8.cpp", "utf_f16.cpp", "utf_f32.cpp", "utf_fx.cpp"])


SOURCES = ["utf_drv.cpp", "utf_f8.cpp", "utf_f16.cpp", "utf_f32.cpp", "utf_fx.cpp"]


def driver17():
    """As C++17, where there are neither views nor concepts, and char is the code unit of UTF-8. None if that is no longer possible."""
    try:
        return core.build("utf17_drv", SOURCES, flags=core.SAN + ["-std=c++17"])
    except core.CheckError:
        return None


def as_cxx17(check, exe, ops, events, props):
    if exe is None:
        check.assumptions.append("icubaby.hpp is not C++17 here: that mode was not tried.")
        return
    most = 12_000 if check.thorough else 3_000
    some = list(range(len(ops)))
    if len(some) > most:
        some = sorted(rng(check, "cxx17").sample(some, most))
    got = core.drive(exe, [ops[k] for k in some])
    check.count("calls_cxx17", len(some))
    what = [(ops[k] + "  # C++17", e) for k, e in zip(some, got) if e != events[k] and not e.startswith('{"op": "skipped"')]
    if what:
        check.judge_events("Trace_Utf", [e for _, e in what], [o for o, _ in what], props, "C++17", need_abnf=False)


def fuzzer():
    return core.fuzz_build("utf_fuzz", ["utf_fuzz.cpp", "utf_f8.cpp", "utf_f16.cpp", "utf_f32.cpp", "utf_fx.cpp"], [])


EDGES = [0, 1, 0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xFF, 0x100, 0x7FE, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xFEFF,
         0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x1F600, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FC00, 0x10FFFF]


def scalar(r):
    k = r.random()
    if k < 0.4:
        return r.choice(EDGES)
    if k < 0.6:
        return r.randrange(0x80)
    while True:
        c = r.randrange(r.choice([0x800, 0x10000, 0x110000]))
        if not 0xD800 <= c < 0xE000:
            return c


def enc(f, c):
    if f == "8":
        return list(chr(c).encode("utf-8"))
    if f == "16":
        return [c] if c < 0x10000 else [0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3FF)]
    return [c]


def junk(r, f):
    if f == "8":
        return r.choice([0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF, 0x9F, 0xA0, 0x8F, 0x90,
                         r.randrange(256)])
    if f == "16":
        return r.choice([0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD7FF, 0xE000, 0xFFFF, 0x41, r.randrange(0xD800, 0xE000), r.randrange(0x10000)])
    return r.choice([0xD800, 0xDFFF, 0xDBFF, 0xDC00, 0x110000, 0x10FFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x200041, 0x1000041,
                     0x80000041, r.randrange(0xD800, 0xE000), r.randrange(2 ** 32)])


def text(r, f, n, ill):
    out = []
    for _ in range(n):
        if r.random() < ill:
            k = r.random()
            e = enc(f, scalar(r))
            if k < 0.4:
                out.append(junk(r, f))
            elif k < 0.7:
                out += e[:r.randrange(len(e) + 1)]
            elif k < 0.85:
                e[r.randrange(len(e))] = junk(r, f)
                out += e
            else:
                out += e[1:]
        else:
            out += enc(f, scalar(r))
    return out


def size(r):
    return r.choice([0, 1, 2, 3, 4, 6, 10, 20])


def hexes(us):
    return [f"{u:x}" for u in us]


def actions(r, f, ill, plain=0.3):
    """Texts pushed one after the other, with ends, copies and new beginnings between."""
    acts = []
    for _ in range(r.randrange(1, 4)):
        t = hexes(text(r, f, size(r), ill))
        if r.random() > plain:
            for _ in range(r.randrange(3)):
                t.insert(r.randrange(len(t) + 1), r.choice("CCAA"))
        if ill and r.random() < 0.3:
            t.insert(r.randrange(len(t) + 1), "E")
        acts += t
        acts.append("E")
        if r.random() < 0.5:
            acts.append("N")
    return ",".join(acts)


def push(f, to, acts, wf0=1):
    return f"push {f} {to} {wf0} {acts}"


def pick_to(r):
    return r.choice(FORMS)


MARKS = {"8": [0xEF, 0xBB, 0xBF], "16be": [0xFE, 0xFF], "16le": [0xFF, 0xFE], "32be": [0, 0, 0xFE, 0xFF], "32le": [0xFF, 0xFE, 0, 0]}


def to_bytes(form, us):
    if form == "8":
        return list(us)
    n = int(form[:2]) // 8
    out = []
    for u in us:
        out += list((u & (2 ** (8 * n) - 1)).to_bytes(n, "big" if form.endswith("be") else "little"))
    return out


def stream(r):
    form = r.choice(list(MARKS))
    f = form[:2] if form != "8" else "8"
    k = r.random()
    mark = MARKS[form]
    body = to_bytes(form, text(r, f, size(r), r.choice([0, 0, 0.2, 0.5])))
    if k < 0.6:
        s = mark + body
    elif k < 0.7:
        s = mark + mark + body
    elif k < 0.8:
        s = mark[:r.randrange(len(mark))] + body
    elif k < 0.9:
        s = list(mark)
        s[r.randrange(len(s))] = r.choice([0, 0x41, 0xBB, 0xBF, 0xEF, 0xFE, 0xFF, r.randrange(256)])
        s += body
    else:
        s = body
    if r.random() < 0.35:
        s = s[:r.randrange(len(s) + 1)]
    if r.random() < 0.1 and s:
        s[r.randrange(len(s))] = r.randrange(256)
    return s


def lone(r, f, n, ill, thorough):
    """One character that matters among many that do not."""
    from . import gen
    for k, p in gen.places(r, 40, n, thorough):
        fill = enc(f, r.choice([0x41, 0x41, 0x7F, 0xE9, 0x20AC, 0x1F600]))
        one = [junk(r, f)] if r.random() < ill else enc(f, r.choice(EDGES))
        yield fill * p + one + fill * (k - 1 - p)


def run(check, props, ops_fn, fuzz_plan, models):
    found = {"fuzz": []}

    def drv():
        found["drv"] = driver()
        found["drv17"] = None if core.COLLECTING else driver17()

    def mc():
        for m in models:
            check.model(m, cfg=f"{m}.cfg" if m == "MC_UtfAll" else f"{m}_{check.tier}.cfg")

    def fz():
        exe = fuzzer()
        sec = 50 if check.thorough else 5
        r = rng(check, "seeds")
        seeds = [bytes(r.randrange(256) for _ in range(r.randrange(1, 30))) for _ in range(20)]
        seeds += [bytes([r.randrange(3)]) + bytes(stream(r)[:60]) for _ in range(40)]

        def one(op):
            return core.fuzz(check, exe, op.replace(" ", "-"), seeds, {"VF_OP": op}, seconds=sec, procs=2, max_len=100,
                             cap=6000 if check.thorough else 800)
        with core.cf.ThreadPoolExecutor(4) as ex:
            for x in ex.map(one, fuzz_plan):
                found["fuzz"] += x
    core.parallel(drv, mc, fz)
    ops = ops_fn(rng(check, "utf")) + found["fuzz"]
    ops = list(dict.fromkeys(ops))
    events = check.judge_ops("Trace_Utf", found["drv"], ops, props, "utf", need_abnf=False)
    if events is not None:
        as_cxx17(check, found["drv17"], ops, events, props)


def c16(check):
    n = 20_000 if check.thorough else 2_000

    def ops(r):
        out = []
        # blocks of consecutive scalar values, every pair of forms: all of them, or
        # the two ends of each block (and every value of the first blocks)
        for f in FORMS:
            for to in FORMS:
                for b in range(0, 0x110000, 0x400):
                    if 0xD800 <= b < 0xE000:
                        continue
                    if check.thorough:
                        for c in range(b, b + 0x400, 0x40):
                            out.append(push(f, to, ",".join(h for x in range(c, c + 0x40) for h in hexes(enc(f, x))) + ",E"))
                    elif b < 0x1000:
                        for c in range(b, b + 0x400, 0x100):
                            out.append(push(f, to, ",".join(h for x in range(c, c + 0x100) for h in hexes(enc(f, x))) + ",E"))
                    elif b % 0x1000 == 0:
                        cs = [b + k for k in (0, 1, 0x3F, 0x40, 0x7F, 0x80, 0x3FF, 0x400, 0xBFF, 0xC00, 0xFC0, 0xFFE, 0xFFF)]
                        cs += [b + r.randrange(0x1000) for _ in range(5)]
                        out.append(push(f, to, ",".join(h for x in cs if not 0xD800 <= x < 0xE000 for h in hexes(enc(f, x))) + ",E"))
        # pairs of edges: what one code point leaves behind meets the next
        for f in FORMS:
            for a in EDGES:
                out.append(push(f, pick_to(r), ",".join(h for b in EDGES for h in hexes(enc(f, a) + enc(f, b))) + ",E"))
        for _ in range(n):
            f = r.choice(FORMS)
            out.append(push(f, pick_to(r), actions(r, f, 0), r.choice([1, 1, 1, 0])))
        for f in FORMS:
            for us in lone(r, f, 150, 0, check.thorough):
                out.append(push(f, pick_to(r), ",".join(hexes(us) + ["E"])))
        return out
    run(check, {"C16"}, ops, ["push 8", "push 16"], ["MC_Utf", "MC_UtfAll"])


def c17(check):
    n = 60_000 if check.thorough else 3_000

    def ops(r):
        out = []
        # each unit after each kind of unfinished sequence, then a character
        before = [[], [0xC2], [0xE0], [0xE0, 0xA0], [0xE1], [0xE1, 0x80], [0xED], [0xED, 0x9F], [0xEF, 0xBB], [0xF0], [0xF0, 0x90],
                  [0xF0, 0x90, 0x80], [0xF1], [0xF1, 0x80], [0xF3, 0xBF, 0xBF], [0xF4], [0xF4, 0x8F], [0xF4, 0x8F, 0xBF], [0xDF],
                  [0xEC], [0xEE]]
        for to in FORMS:
            for p in before:
                for c in range(0, 256, 32):
                    acts = []
                    for x in range(c, c + 32):
                        acts += ["N"] + hexes(p + [x]) + (["41"] if x % 2 else []) + ["E"]
                    out.append(push("8", to, ",".join(acts)))
            for p in ([], [0xD800], [0xDBFF], [0xDC00], [0x41], [0xDABC]):
                for u in (0, 0x41, 0x7FF, 0xD7FF, 0xD800, 0xDBFE, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF):
                    for post in ([], [0xDC00], [0xD801], [0x42]):
                        out.append(push("16", to, ",".join(hexes(p + [u] + post) + ["E", "43", "E"])))
            for u in [0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF] + [
                    1 << k for k in range(16, 32)] + [0x41 | 1 << k for k in range(16, 32)]:
                out.append(push("32", to, f"41,{u:x},42,E"))
                out.append(push("32", to, f"{u:x},E"))
        # the end at each point
        for p in before:
            for to in FORMS:
                out.append(push("8", to, ",".join(["N"] + hexes(p) + ["E"] + hexes(p) + ["E", "41", "E"])))
        # every sequence of three (four) bytes from the ends of the ranges
        al = [0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5]
        acts = []
        for t in itertools.product(al, repeat=3):
            acts.append(["N"] + hexes(t) + ["E"])
        if check.thorough:
            for t in itertools.product(al[3:], repeat=4):
                acts.append(["N"] + hexes(t) + ["E"])
        for k in range(0, len(acts), 16):
            out.append(push("8", FORMS[(k // 16) % 3], ",".join(x for a in acts[k:k + 16] for x in a)))
        for _ in range(n):
            f = r.choice(("8", "8", "16", "16", "32"))
            out.append(push(f, pick_to(r), actions(r, f, r.choice([0.1, 0.3, 0.7, 1.0])), r.choice([1, 1, 1, 0])))
        for f in FORMS:
            for us in lone(r, f, 150, 0.9, check.thorough):
                out.append(push(f, pick_to(r), ",".join(hexes(us) + ["E"])))
        return out
    run(check, {"C17"}, ops, ["push 8", "push 16", "push 32"], ["MC_Utf"])
    check.cov["exhaustive"] = "each byte after each kind of unfinished UTF-8 sequence; all triples of range ends"


def c18(check):
    n = 60_000 if check.thorough else 5_000

    def ops(r):
        out = []

        def add(s, to=None):
            out.append(push("x", to or pick_to(r), ",".join(hexes(s) + ["E"])))
        # each byte after each beginning of a mark; the end after it, or more
        starts = {tuple(m[:k]) for m in MARKS.values() for k in range(len(m) + 1)}
        for p in sorted(starts):
            for c in range(0, 256):
                add(list(p) + [c])
                add(list(p) + [c, 0x41, 0x42, 0x43][:r.randrange(2, 5)])
            for to in FORMS:
                for k in range(6):
                    add(list(p) + [0x41, 0, 0, 0, 0x42][:k], to)
        al = [0, 0x41, 0xBB, 0xBF, 0xEF, 0xFE, 0xFF, 0xD8, 0xDC]
        for k in range(1, 6 if check.thorough else 5):
            acts = [["N"] + hexes(t) + ["E"] for t in itertools.product(al, repeat=k)]
            for j in range(0, len(acts), 16):
                out.append(push("x", FORMS[(j // 16) % 3], ",".join(x for a in acts[j:j + 16] for x in a)))
        for m in MARKS.values():   # surrogates, split code units
            for t in itertools.product([0xD8, 0xDC, 0xDB, 0x00, 0x41], repeat=4):
                add(m + list(t))
        for _ in range(n):
            acts = []
            for _ in range(r.choice([1, 1, 2])):
                t = hexes(stream(r))
                for _ in range(r.randrange(3) if r.random() < 0.5 else 0):
                    t.insert(r.randrange(len(t) + 1), r.choice("CA"))
                acts += t + ["E", "N"]
            out.append(push("x", pick_to(r), ",".join(acts[:-1])))
        for form, m in MARKS.items():
            for us in lone(r, form[:2], 100, 0.5, check.thorough):
                add((m if form != "8" or r.random() < 0.5 else []) + to_bytes(form, us))
        return out
    run(check, {"C18"}, ops, ["push x", "view x"], ["MC_Bytes"])
    check.cov["exhaustive"] = "all sequences of up to 4 (5) bytes over the bytes of the marks; each byte after each beginning of a mark"


def c19(check):
    n = 25_000 if check.thorough else 2_500

    def ops(r):
        out = []

        def add(f, us, to=None):
            out.append(f"view {f} {to or pick_to(r)} =" + ",".join(hexes(us)))
        for to in FORMS:
            for f in FORMS + ("x",):
                add(f, [], to)
            for t in itertools.product([0x41, 0x80, 0xC2, 0xE1, 0xF1], repeat=3):
                add("8", t, to)
                add("x", t, to)
            for k in (1, 2, 3):
                for t in itertools.product([0x41, 0xD800, 0xDC00, 0xFFFF], repeat=k):
                    add("16", t, to)
                for t in itertools.product([0x41, 0xD800, 0x1F600, 0xFFFFFFFF], repeat=k):
                    add("32", t, to)
            for m in MARKS.values():
                for t in ([], [0], [0x41], [0xC2], [0xD8, 0], [0xD8, 0, 0], [0x41, 0, 0], [0, 0xD8, 0, 0xD8], [0, 0xD8, 0, 0xD8, 0x41]):
                    for k in range(len(m) + 1):
                        add("x", m[:k] + t, to)
        for _ in range(n):
            f = r.choice(FORMS + ("x",))
            add(f, stream(r) if f == "x" else text(r, f, size(r), r.choice([0, 0.1, 0.4, 1.0])))
        for form, m in MARKS.items():
            for us in lone(r, form[:2], 70, 0.5, check.thorough):
                if len(us) < 100:
                    add("x", m + to_bytes(form, us))
        for f in FORMS:
            for us in lone(r, f, 100, 0.5, check.thorough):
                if len(us) < 300:
                    add(f, us)
        return out
    run(check, {"C19"}, ops, ["view 8", "view 16", "view 32", "view x"], ["MC_Utf", "MC_Bytes"])


def c25(check):
    n = 20_000 if check.thorough else 2_500

    def ops(r):
        out = []
        for c in range(0, 256, 16):
            out.append("len 8 =" + ",".join(hexes(range(c, c + 16))))
        for c in list(range(0, 0x10000, 0x1000)) + [0xD7F0, 0xD800, 0xDBF8, 0xDC00, 0xDFF8, 0xE000, 0xFFF0]:
            out.append("len 16 =" + ",".join(hexes(range(c, c + 16))))
        for c in [0, 0xD7F8, 0xDBF8, 0xDFF8, 0xFFF8, 0x10FFF8, 0x7FFFFFF8, 0xFFFFFFF0]:
            out.append("len 32 =" + ",".join(hexes(range(c, c + 16))))
        for f in FORMS:
            for k in range(4):
                for t in itertools.product({"8": [0x41, 0x80, 0xBF, 0xC0], "16": [0x41, 0xD800, 0xDC00, 0xDFFF],
                                            "32": [0x41, 0xD800, 0xDC00, 0x110000]}[f], repeat=k):
                    out.append(f"len {f} =" + ",".join(hexes(t)))
        for _ in range(n):
            f = r.choice(FORMS)
            out.append(f"len {f} =" + ",".join(hexes(text(r, f, size(r), r.choice([0, 0.2, 1.0])))))
        for f in FORMS:
            for us in lone(r, f, 150, 0.5, check.thorough):
                out.append(f"len {f} =" + ",".join(hexes(us)))
        return out
    run(check, {"C25"}, ops, ["len 8", "len 16", "len 32"], ["MC_UtfAll"])
