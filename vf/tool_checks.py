"""C22: the uri-split tool."""
import json
import os
import shutil
import subprocess
import tempfile

from . import core, gen, pump
from .uri_checks import rng


def tool():
    return core.build("uri_split", [os.path.join(core.REPO, "tools/uri-split/uri-split.cpp")], core.LIB_URI)


def line(r, ok):
    while True:
        if ok:
            s = gen.scheme(r) + b":" + gen.uri(r, rel=True) if r.random() < 0.2 else gen.uri(r, rel=False)
        else:
            k = r.random()
            s = gen.uri(r, rel=True) if k < 0.4 else gen.mutate(r, gen.uri(r)) if k < 0.8 else r.choice(
                [b"", b" ", b"a:b ", b" a:b", b"a:b\r", b"a", b"//h", b"\x00", b"a:\x00", b"a:\xe9", b"a:%4", b"\"a:b\"", b"a:b#c#d"])
        if b"\n" not in s:
            return s


def stream(r):
    n = r.choice([0, 1, 1, 2, 3, 5, 8])
    bad = r.randrange(n) if n and r.random() < 0.25 else -1
    text = b"\n".join(line(r, k != bad) for k in range(n))
    if n and r.random() < 0.7:
        text += b"\n"
    if r.random() < 0.05:
        text += b"\n"
    return text


# What a reader of text might pass over: marks, blanks, comments, quotes.
AROUND = [bytes([c]) for c in range(256) if c != 10] + [
    b"\xef\xbb\xbf", b"\xfe\xff", b"\xff\xfe", b"\xff\xfe\0\0", b"\0\0\xfe\xff", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xc2\x85", b"\r\r", b"  ", b"//", b"/*", b"# ", b"; ",
    b"--", b"<!", b"URL:", b"url:", b"uri:", b"&", b"\\\\", b"\x1b[0m", b"\x1a", b"\x04", b"\0\0"]


def around():
    """Streams with something before, after or within one of two lines."""
    out = []
    for a in AROUND:
        for s in (a + b"s:p", b"s:p" + a, b"s://h" + a + b"/p", a + b"s:p" + a, b"<s:p" + a + b">" if a in b" >\t" else a):
            out += [s + b"\n", b"s:p\n" + s]
    return [(True, [t]) for t in out[::2]] + [(False, [t]) for t in out[1::2]]


NAMES = ["a", "b.txt", "c d", "quo\"te", "-", "--help", "e:f", "\u00e9", "%41", "x" * 200]


def runs(check, n):
    r = rng(check, "tool")
    out = [(True, [b""]), (True, [b"\n"]), (True, [b"a:"]), (True, [b"a:\n"]), (True, [b"a:\n\n"]), (True, [b"a:b\nc"]),
           (False, [None]), (False, [b""]), (False, [b"", b""]), (False, [b"a:", None, b"b:"]), (False, [b"a:\n", b"b\n", b"c:\n"]),
           (False, [b"a:", b"b:"]), (False, [None, b"a:"]), (False, [b"a:\n"] * 9),
           # each component present or absent or empty
           (True, [b"".join(b"s:" + (b"" if a is None else b"//" + u + h + p) + pa + q + f + b"\n"
                            for a in (None, 1) for u in ((b"", b"@", b"u@") if a else (b"",)) for h in ((b"", b"h") if a else (b"",))
                            for p in ((b"", b":", b":8") if a else (b"",)) for pa in (b"", b"/", b"/x", b"/x/", b"/x//y/../.") + (() if a else (b"x", b"x/"))
                            for q in (b"", b"?", b"?q") for f in (b"", b"#", b"#f"))]),
           (True, [b"s:" + b"a/" * 400 + b"?" + b"q" * 3000 + b"\n" + b"s://" + b"h" * 2000 + b"\n"])]
    for _ in range(n):
        if r.random() < 0.5:
            out.append((True, [stream(r)]))
        else:
            ss = [None if r.random() < 0.08 else stream(r) for _ in range(r.choice([1, 1, 2, 2, 3, 5]))]
            out.append((False, ss))
    return out, r


def perform(exe, dir_, k, stdin, ss, names):
    d = os.path.join(dir_, str(k))
    os.mkdir(d)
    args = []
    try:
        if not stdin:
            for n, s in enumerate(ss):
                name = (names[n] + str(n)).encode()
                args.append(name)
                if s is not None:
                    with open(os.path.join(d.encode(), name), "wb") as f:
                        f.write(s)
        e = dict(core.DRV_ENV)
        p = subprocess.run([exe] + args, input=ss[0] if stdin else b"a:unread\nnot a uri\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=d, env=e, timeout=60)
        if p.returncode < 0:
            return {"op": "crash", "of": "tool", "why": f"exit {p.returncode} " + p.stderr.decode("ascii", "replace")[-600:],
                    "streams": [repr(s)[:300] for s in ss], "stdin": stdin}
        return {"op": "tool", "stdin": stdin, "streams": [[] if s is None else [list(s)] for s in ss], "out": list(p.stdout),
                "exit": p.returncode}
    except subprocess.TimeoutExpired:
        return {"op": "crash", "of": "tool", "why": "timeout", "streams": [repr(s)[:300] for s in ss], "stdin": stdin}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def long_ones(several):
    """Runs as functions of n: n of something in a component, n lines, n files."""
    one = [lambda n: b"s:" + b"a" * n, lambda n: b"s:?" + b"q" * n, lambda n: b"s:?" + b"a" * n + b"/", lambda n: b"s:#" + b"f?" * n, lambda n: b"s" * n + b":",
           lambda n: b"s://" + b"u" * n + b"@h", lambda n: b"s://" + b"h" * n + b"/", lambda n: b"s://h:" + b"1" * n, lambda n: b"s://h" + b"/a" * n,
           lambda n: b"s:/" + b"a/" * n, lambda n: b"s:/" + b"x" * n + b"/", lambda n: b"s:" + b"%41" * n, lambda n: b"s:" + b"a" * n + b"%", lambda n: b"s" * n,
           lambda n: b"s://" + b"h" * n + b":" + b"2" * n + b"/" + b"p" * n + b"?" + b"q" * n + b"#" + b"f" * n]
    many = [lambda n: b"s:\n" * n, lambda n: b"s:p\n" * n + b"x:", lambda n: b"s:\n" * n + b"bad\n" + b"s:\n" * n, lambda n: b"s:?q\n" * n + b"\n"]
    out = []
    for f in [] if several else one:
        out += [lambda n, f=f: (True, [f(n)]), lambda n, f=f: (False, [b"a:b\n" + f(n) + b"\nc:d#e\n"])]
    for f in many if several else []:
        out += [lambda n, f=f: (True, [f(n)]), lambda n, f=f: (False, [f(n)])]
    return out


def shape_of(text):
    e = json.loads(text)
    return ("crash", []) if e["op"] == "crash" else pump.shape([str(c) for c in e["out"]] + ["exit", str(e["exit"])], 200)


def pumped(check, exe, base):
    sizes = pump.LARGE
    ops = [(f, big, d) for many in (False, True) for d, big in (pump.MIDDLE if many else pump.LARGE) for f in long_ones(many)]
    large = [(i, n, d, repr(f(3))[:200]) for i, (f, big, d) in enumerate(ops) for n in big]
    todo = [f(n + d) for f, _, d in ops for n in pump.SMALL] + [ops[i][0](n + d) for i, n, d, _ in large]
    with core.cf.ThreadPoolExecutor(core.NCPU) as ex:
        jobs = [ex.submit(perform, exe, base, f"p{k}", stdin, ss, NAMES) for k, (stdin, ss) in enumerate(todo)]
        texts = [json.dumps(j.result()) for j in jobs]
    few = texts[:len(ops) * len(pump.SMALL)]
    check.judge_events("Trace_Tool", few, [f"pump {k}" for k in range(len(few))], {"C22"}, "pump (small)", need_abnf=True)
    with core.cf.ProcessPoolExecutor(core.NCPU) as ex:
        shapes = list(ex.map(shape_of, texts, chunksize=4))
    pump.judge_shapes(check, "tool", large, shapes, sizes)


def c22(check):
    found = {}

    def drv():
        found["exe"] = tool()

    def models():
        check.model("MC_Tool", cfg=f"MC_Tool_{check.tier}.cfg", need_abnf=True)
    core.parallel(drv, models)
    todo, r = runs(check, 8000 if check.thorough else 700)
    todo += around()
    base = tempfile.mkdtemp(prefix="tool-", dir=core._tmp())
    with core.cf.ThreadPoolExecutor(core.NCPU) as ex:
        jobs = [ex.submit(perform, found["exe"], base, k, stdin, ss, r.sample(NAMES, len(NAMES))) if len(ss) <= len(NAMES) else None
                for k, (stdin, ss) in enumerate(todo)]
        events = [json.dumps(j.result()) for j in jobs]
    pumped(check, found["exe"], base)
    check.judge_events("Trace_Tool", events, [str(k) for k in range(len(events))], {"C22"}, "runs", need_abnf=True)
