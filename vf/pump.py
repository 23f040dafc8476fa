"""Inputs of great length. An operation with n copies of something is recorded for a few
small n (these events are judged like any other) and for large n. Each event is written
as a text of tokens in which repetitions are counted; every number in it, counts
included, must grow from the small events to the large ones as the specification says
(Trace_Pump)."""
import concurrent.futures as cf
import json
import re

from . import core, gen

SMALL = [48, 60, 84]      # multiples of 12, since what is repeated may be combined by twos, threes or fours
TOKEN = re.compile(r'"[^"]*"|-?\d+|[^\s]')


def flatten(text, drop=()):
    """The tokens of a JSON text, without the members named in drop."""
    if drop:
        def strip(x):
            if isinstance(x, dict):
                return {k: strip(v) for k, v in x.items() if k not in drop}
            if isinstance(x, list):
                return [strip(v) for v in x]
            return x
        text = json.dumps(strip(json.loads(text)))
    return TOKEN.findall(text)


def shape(tokens, longest=100):
    """(shape, numbers): runs of at least 8 equal blocks of up to `longest` tokens are counted."""
    out, nums = [], []
    i, n = 0, len(tokens)
    while i < n:
        best = None
        t0 = tokens[i]
        for p in range(1, longest + 1):
            if i + 8 * p > n:
                break
            if tokens[i + p] != t0:
                continue
            block = tokens[i:i + p]
            if tokens[i + p:i + 2 * p] != block or tokens[i + 2 * p:i + 3 * p] != block:
                continue
            r = 3
            while tokens[i + r * p:i + (r + 1) * p] == block:
                r += 1
            if r >= 8:
                best = (p, r)
                break
        if best:
            p, r = best
            out.append("*(" + " ".join(tokens[i:i + p]) + ")")
            nums.append(r)
            i += p * r
        else:
            t = tokens[i]
            if re.fullmatch(r"-?\d+", t):
                out.append("#")
                nums.append(int(t))
            else:
                out.append(t)
            i += 1
    return " ".join(out), nums


S = "split "


def _split():
    ts = [lambda n: b"a" + b"b" * n + b":x", lambda n: b"//" + b"u" * n + b"@h", lambda n: b"//" + b"h" * n,
          lambda n: b"//" + b"%41" * n + b"?q", lambda n: b"s://h:" + b"1" * n, lambda n: b"s:" + b"a/" * n, lambda n: b"/a" * n,
          lambda n: b"s://h" + b"/" * n, lambda n: b"s:/x" + b"//" * n, lambda n: b"s:?" + b"q%20" * n, lambda n: b"#" + b"f/?" * n,
          lambda n: b"//" + b"1." * n, lambda n: b"//[v1." + b"a:" * n + b"]/p", lambda n: b"a" * n, lambda n: b"s:" + b"a/" * n + b" ",
          lambda n: b"?" + b"%41" * n + b"%4", lambda n: b"//" + b"u:" * n + b"@h:1", lambda n: b"//" + b"1" * n, lambda n: b"//[" + b"1:" * n + b"]",
          lambda n: b"s://h" + b"/a%2f" * n + b"?q#f", lambda n: b"s:" + b"a:" * n + b"/x", lambda n: b"1" * n + b"/b:c", lambda n: b"/" * n,
          lambda n: b"//h" + b"/." * n, lambda n: b"s:" + b"../" * n, lambda n: b"//" + b"@" * n, lambda n: b"s:#" + b"#" * n,
          lambda n: b"//[v" + b"a" * n + b".x]", lambda n: b"a" * n + b"%4z"]
    return [lambda n, t=t: S + gen.hx(t(n)) for t in ts]


def _parts(op):
    P = gen.parts_line
    return [lambda n: f"{op} " + P(scheme=b"a" * n), lambda n: f"{op} " + P(scheme=b"s", auth=(b"u%" * n, b"h", None)),
            lambda n: f"{op} " + P(scheme=b"s", auth=(b"u" * n, b"h" * n, b"1" * n), abs_=True, segs=[b"a" * n], query=b"q/" * n, fragment=b"f?" * n),
            lambda n: f"{op} " + P(scheme=b"s", abs_=True, segs=[b"a"] * n), lambda n: f"{op} " + P(segs=[b"x", b""] * n),
            lambda n: f"{op} " + P(scheme=b"s", auth=(None, b"", None), segs=[b"y%2F"] * n, query=b""),
            lambda n: f"{op} " + P(scheme=b"s", segs=[b"a"] * n + [b"b c"]),
            lambda n: f"{op} " + P(scheme=b"s", abs_=True, segs=[b""] * n)]


def _rds():
    pats = [lambda n: [b"a"] * n, lambda n: [b"."] * n, lambda n: [b".."] * n, lambda n: [b"a", b".."] * n, lambda n: [b"a", b"b", b".."] * n,
            lambda n: [b""] * n, lambda n: [b"a", b"."] * n, lambda n: [b"a"] * n + [b".."] * n, lambda n: [b"a"] * n + [b".."] * (n - 3),
            lambda n: [b"a", b""] * n + [b".."] * n + [b"b"], lambda n: [b".."] * n + [b"a"] * n, lambda n: [b"x"] + [b"."] * n + [b"y"],
            lambda n: [b"a"] * n + [b".."] * n + [b"b"] * n + [b"."]]
    return [lambda n, p=p, a=a: "rds " + gen.parts_line(abs_=a, segs=p(n)) for p in pats for a in (True, False)]


def _join():
    ps = [(lambda n: b"s://h/" + b"a/" * n, lambda n: b"../" * n + b"x"), (lambda n: b"s://h/" + b"a/" * n + b"b", lambda n: b"x"),
          (lambda n: b"s:a/b", lambda n: b"c/" * n), (lambda n: b"s://h/" + b"a/" * n, lambda n: b"../" * (n - 5) + b"./" * n + b"y?q"),
          (lambda n: b"s:" + b"a/" * n, lambda n: b"../" * n), (lambda n: b"s://h?" + b"q" * n, lambda n: b"#" + b"f" * n),
          (lambda n: b"s://h/" + b"a/" * n, lambda n: b"/" + b"b/../" * n), (lambda n: b"s://" + b"h" * n, lambda n: b"?" + b"x" * n),
          (lambda n: b"s" * n + b":a", lambda n: b"//" + b"g" * n + b"/x"), (lambda n: b"s:a/" + b"x" * n, lambda n: b"y" * n),
          (lambda n: b"s:a", lambda n: b"s:" + b"b/./" * n), (lambda n: b"s:a/b ", lambda n: b"c" * n)]
    return [lambda n, b=b, r=r, k=k: f"joins {k} {gen.hx(b(n))} {gen.hx(r(n))}" for b, r in ps for k in (0, 1)]


def _eq():
    P = gen.parts_line

    def three(p, q):
        return lambda n: "eq " + " ".join([P(**p(n)), P(**q(n)), P(**p(n))])
    return [three(lambda n: dict(segs=[b"a"] * n), lambda n: dict(segs=[b"a"] * n + [b"b"])),
            three(lambda n: dict(segs=[b"a"] * n), lambda n: dict(segs=[b"a"] * (n - 1) + [b"b"])),
            three(lambda n: dict(query=b"a" * n), lambda n: dict(query=b"a" * n + b"b")),
            three(lambda n: dict(auth=(None, b"h" * n, None)), lambda n: dict(auth=(None, b"h" * (n - 1) + b"H", None))),
            three(lambda n: dict(abs_=True, segs=[b"x", b""] * n), lambda n: dict(abs_=False, segs=[b"x", b""] * n))]


def _pct(kind):
    units = [b"a", b"%41", b"%4", b"%", b" ", b"\xe9", b"a%2f b", b"%zz%20", b"%%41", b"~/?"]
    if kind == "dec":
        return [lambda n, u=u, t=t: "dec " + gen.hx(u * n + t) for u in units for t in (b"", b"%4", b"%41")]
    return [lambda n, u=u, s=s: f"enc {s} " + gen.hx(u * n) for u in units for s in ("none", "path", "form", "query", "userinfo")]


def _penc():
    us = ["61", "e9", "10ffff", "2d"]
    return [lambda n, u=u: "penc @" + ",".join([u] * n) for u in us] + [lambda n: "penc @" + ",".join(["61"] * n + ["80"]),
                                                                       lambda n: "penc @" + ",".join(["80"] + ["41"] * n)][:0]


def _pdec():
    ts = [lambda n: b"a" * n, lambda n: b"a" * n + b"-", lambda n: b"9" * n, lambda n: b"b" + b"a" * n, lambda n: b"a-" + b"a" * n,
          lambda n: b"-" * n, lambda n: b"A" * n, lambda n: b"a" * n + b"-9", lambda n: b"a" * n + b"!", lambda n: b"x" * n + b"-\x80"]
    return [lambda n, t=t: "pdec " + gen.hx(t(n)) for t in ts]


def _sess():
    P = gen.parts_line
    ps = [lambda n: dict(scheme=b"a" * n, auth=(b"u " * n, b"h" * n, b"1" * n), segs=[b"a b" * n], query=b"q " * n, fragment=b"\"" * n),
          lambda n: dict(segs=[b"a b"] * n), lambda n: dict(segs=[b"ab"] * n, query=b" "), lambda n: dict(segs=[b"a", b"%41"] * n, abs_=True),
          lambda n: dict(auth=(None, b"a." * n + b"b", None)), lambda n: dict(auth=(None, b"\xc3\xa9." * n + b"c", None)),
          lambda n: dict(auth=(None, b"xn--9ca." * n, None)), lambda n: dict(auth=(None, b"\xc3\xa9" * n, None)),
          lambda n: dict(auth=(None, b"xn--9ca." * n + b"xn--9", None)), lambda n: dict(segs=[b""] * n + [b" "], fragment=b"%41" * n),
          lambda n: dict(auth=(b"%41" * n, b"\xff" * n, b"%31" * n), query=b"%" * n)]
    out = []
    for p in ps:
        for k in ("sv", "vs"):
            out.append(lambda n, p=p, k=k: f"sess {k} 3 L 0 {P(**p(n))} E 0 0 1 D 1 1 2")
        out.append(lambda n, p=p: f"sess s 2 L 0 {P(**p(n))} D 0 0 1")
    return out


def _path():
    P = gen.parts_line
    return _parts("path") + [lambda n, ss=ss, a=a: "path " + P(abs_=a, segs=ss * n) for a in (True, False) for ss in (
        [b"a", b".."], [b"."], [b"a" * 20, b"."], [b"", b"a"], [b"/a"], [b"a/"], [b"..", b""])] + [
        lambda n: "path " + P(segs=[b"a", b"..", b"x" * n]), lambda n: "path " + P(abs_=True, segs=[b"x" * n, b".."]),
        lambda n: "path " + P(segs=[b"x" * n, b"/", b"y" * n])]


def _push(ill):
    us = {"8": ["41", "c3,a9", "e2,82,ac", "f0,9f,98,80"] if not ill else ["80", "c3", "e2,82", "f0,9f,98", "ed,a0,80", "ff,41", "c3,a9,80"],
          "16": ["41", "d83d,de00"] if not ill else ["d83d", "de00", "d83d,41"],
          "32": ["41", "1f600"] if not ill else ["d800", "110000,41"]}
    return [lambda n, f=f, t=t, u=u: f"push {f} {t} 1 " + ",".join([u] * n + ["E"]) for f in us for u in us[f] for t in ("8", "16", "32")]


def _bytes():
    marks = ["ef,bb,bf", "fe,ff", "ff,fe", "0,0,fe,ff", "ff,fe,0,0", "41"]
    us = ["41", "0,41", "41,0", "d8,3d,de,0", "0,0,0,41", "41,0,0,0", "0,0,fe,ff"]
    return [lambda n, m=m, u=u: "push x 8 1 " + ",".join([m] + [u] * n + ["E"]) for m in marks for u in us]


def _view():
    us = {"8": ["41", "c3,a9", "e2,82,ac", "f0,9f,98,80", "e2,82", "80"], "16": ["41", "d83d,de00", "de00"], "32": ["41", "1f600", "d800"],
          "x": ["41", "fe,ff,0,41"]}
    return [lambda n, f=f, t=t, u=u: f"view {f} {t} =" + ",".join([u] * n) for f in us for u in us[f] for t in ("8", "16", "32")]


def _len():
    us = {"8": ["41", "c3,a9", "80"], "16": ["41", "d83d,de00", "de00"], "32": ["41", "1f600", "d800"]}
    return [lambda n, f=f, u=u: f"len {f} =" + ",".join([u] * n) + " few" for f in us for u in us[f]]


def _peg():
    a = "ch 97"
    es = [f"cat 1 S 0 999999 {a}", f"cat 2 C 1 cat 1 S 0 999999 {a} C 2 ch 98", f"cat 1 S 0 999999 cat 1 C 1 {a}",
          f"cat 1 S 0 999999 cat 2 O 1 ch 98 C 3 {a}", f"cat 1 S 0 999999 cat 1 A 2 cat 2 C 1 {a} C 2 ch 98 cat 1 C 4 {a}",
          f"cat 1 S 5 999999 cat 1 S 1 2 {a}"]
    return [lambda n, e=e: f"peg 0 0 {e} " + gen.hx(b"a" * (2 * n)) for e in es] + [
        lambda n, e=e: f"peg 1 0 {e} " + gen.hx(b"a" * (2 * n) + b"b") for e in es]


def _algo():
    c = ",".join
    return [lambda n, k=k: f"fl {k} r id 1:{c(['1'] * n + ['2'] * n)} 2:{c(['1'] * n)} 1:{c(['2'] * n + ['1'])} 1:{c(['1'] + ['0'] * n)}"
            for k in ("vector", "list", "flist", "lended", "drop")] + [
        lambda n, k=k: f"sw {k} vector r eq id id {c(['1'] * n)}:{c(['1'] * n)} {c(['1'] * n)}:{c(['1'] * n + ['1'])} {c(['1'] * n + ['2'])}:{c(['1'] * n + ['3'])}"
        for k in ("vector", "list", "input")]


# (what is added to every n, the large n): beyond what 8 and 16 bits count, and exactly there.
LARGE = [(0, [300, 70_008]), (4, [252, 65_532])]
MIDDLE = [(0, [300, 5_004]), (4, [252, 4_092])]     # where the time or the size of the result grows faster
# family -> (driver, specification, needs the automaton, members left out, sizes, operations)
FAMILIES = {
    "split": ("uri", "Trace_Uri", True, (), LARGE, _split),
    "compose": ("uri", "Trace_Uri", True, (), LARGE, lambda: _parts("compose")),
    "rds": ("uri", "Trace_Uri", True, (), LARGE, _rds),
    "join": ("uri", "Trace_Uri", True, (), LARGE, _join),
    "eq": ("uri", "Trace_Uri", True, (), LARGE, _eq),
    "path": ("uri", "Trace_Uri", True, (), LARGE, _path),
    "enc": ("pct", "Trace_Pct", False, (), LARGE, lambda: _pct("enc")),
    "dec": ("pct", "Trace_Pct", False, ("stops",), LARGE, lambda: _pct("dec")),
    "penc": ("puny", "Trace_Puny", False, (), MIDDLE, _penc),
    "pdec": ("puny", "Trace_Puny", False, (), MIDDLE, _pdec),
    "sess": ("parts", "Trace_Session", False, ("views",), MIDDLE, _sess),
    "push": ("utf", "Trace_Utf", False, (), LARGE, lambda: _push(False)),
    "ill": ("utf", "Trace_Utf", False, (), LARGE, lambda: _push(True)),
    "bytes": ("utf", "Trace_Utf", False, (), LARGE, _bytes),
    "view": ("utf", "Trace_Utf", False, (), MIDDLE, _view),
    "len": ("utf", "Trace_Utf", False, (), LARGE, _len),
    "peg": ("rule", "Trace_Peg", False, ("acts",), MIDDLE, _peg),
    "algo": ("algo", "Trace_Algo", False, (), LARGE, _algo),
}


def driver(name):
    from . import algo_checks, parts_checks, rule_checks, text_checks, uri_checks, utf_checks
    return {"uri": uri_checks.driver, "pct": text_checks.pct_driver, "puny": text_checks.puny_driver, "parts": parts_checks.driver,
            "utf": utf_checks.driver, "rule": rule_checks.driver, "algo": algo_checks.driver}[name]()


def _shape_of(text, drop):
    if re.match(r'\{\s*"op"\s*:\s*"(crash|skipped)"', text):
        return "crash", []
    return shape(flatten(text, drop))


def pump(check, family, relevant):
    drv, module, need_abnf, drop, sizes, fs = FAMILIES[family]
    exe = driver(drv)
    # Every operation as a function of n, with its large n.
    ops = [(lambda n, f=f, d=d: f(n + d), big, d) for d, big in sizes for f in fs()]
    small = [f(n) for f, _, _ in ops for n in SMALL]
    check.judge_ops(module, exe, small, relevant, f"pump {family} (small)", need_abnf=need_abnf)
    large = [(i, n, f(n)) for i, (f, big, _) in enumerate(ops) for n in big]
    texts = core.drive(exe, small + [t for _, _, t in large], heavy=True, timeout=120)
    with cf.ProcessPoolExecutor(core.NCPU) as ex:
        shapes = list(ex.map(_shape_of, texts, [drop] * len(texts), chunksize=4))
    judge_shapes(check, family, [(i, n, ops[i][2], ops[i][0](3)[:200]) for i, n, _ in large], shapes, sizes)


def judge_shapes(check, family, large, shapes, sizes):
    """shapes: of the results for the small n of every operation, then of those for the large: (which operation, n, what was added to n, its text)."""
    events, what = [], []
    first = len(shapes) - len(large)
    for (i, n, d, text), big in zip(large, shapes[first:]):
        few = shapes[i * len(SMALL):(i + 1) * len(SMALL)]
        events.append(json.dumps({"op": "pump", "n": SMALL, "big": n, "shapes": [s for s, _ in few], "bigshape": big[0],
                                  "nums": [c for _, c in few], "bignums": big[1]}))
        what.append(f"{family} {n + d} {text}")
    check.judge_events("Trace_Pump", events, what, {"pump"}, f"pump {family}", need_abnf=False)
    check.cov["largest_repetition"] = max(check.cov.get("largest_repetition", 0), max(n for _, big in sizes for n in big))
