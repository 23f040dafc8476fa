"""C20: the rule combinators."""
import itertools
import json

from . import core, gen
from .uri_checks import rng

INF = 999999


def driver():
    return core.build("rule_drv", ["rule_drv.cpp"], ["rule"])


def text(e):
    """An expression as tokens; ("cat", steps), steps ("C", act, e) ..."""
    if e[0] != "cat":
        return " ".join(str(x) for x in e)
    return " ".join([f"cat {len(e[1])}"] + [step_text(s) for s in e[1]])


def step_text(s):
    if s[0] in "CO":
        return f"{s[0]} {s[1]} {text(s[2])}"
    if s[0] == "S":
        return f"S {s[1]} {s[2]} {text(s[3])}"
    if s[0] == "N":
        return f"N {text(s[1])}"
    return " ".join([f"A {len(s[1])}"] + [text(e) for e in s[1]])


def from_spec(e):
    """An expression of module Peg as this module writes it."""
    if e[0] == "pr":
        return ("pr", ",".join(str(c) for c in e[1]) or "-")
    if e[0] != "cat":
        return tuple(e)
    steps = []
    for t in e[1]:
        if t[0] in "CO":
            steps.append((t[0], t[2], from_spec(t[1])))
        elif t[0] == "S":
            steps.append(("S", t[2], t[3], from_spec(t[1])))
        else:
            steps.append((t[0], [from_spec(x) for x in t[1]] if t[0] == "A" else from_spec(t[1])))
    return ("cat", steps)


def op(e, inputs, rules=(), variant=0):
    return " ".join([f"peg {variant} {len(rules)}"] + [text(r) for r in rules] + [text(e)] + [gen.hx(i) for i in inputs])


# --- all small expressions (as in MC_Peg) ------------------------------------------------
A, B = ("ch", 97), ("ch", 66)


def steps_over(xs, acts, bounds):
    for x in xs:
        for k in acts:
            yield ("C", k, x)
            yield ("O", k, x)
        for lo, hi in bounds:
            yield ("S", lo, hi, x)


def small():
    step0 = list(steps_over([A, B], [0, 1], [(0, INF), (1, 1), (1, 2)])) + [("A", p) for p in itertools.product([A, B], [A, B])]
    level1 = [("cat", [])] + [("cat", [x]) for x in step0] + [("cat", [x, y]) for x in step0 for y in step0]
    narrow = [("cat", [])] + [("cat", [x]) for x in step0] + [("cat", [x, ("C", 2, B)]) for x in step0]
    step1 = list(steps_over(level1, [3], [(0, INF), (2, 2), (0, 1), (2, 3), (0, 0)]))
    step1 += [("A", [x, y]) for x in narrow for y in (A, ("cat", []))]
    step1 += [("A", [x, y]) for x in (A, ("cat", [("C", 1, A), ("C", 2, B)])) for y in narrow]
    out = level1 + [("cat", [x]) for x in step1]
    for x in step1:
        out.append(("cat", [x, ("C", 4, B)]))
        out.append(("cat", [("C", 4, A), x]))
    return out


# --- larger ones ---------------------------------------------------------------------------
def prim(r):
    k = r.random()
    if k < 0.5:
        return ("ch", r.choice([97, 98, 99, 65, 66, 67, 45, 47]))
    if k < 0.7:
        a = r.choice([97, 98, 65, 66, 48])
        return ("rg", a, a + r.randrange(3))
    if k < 0.9:
        return (r.choice(["al", "di", "hx"]),)
    return ("pr", r.choice(["-", "97", "65,98", "45,47,97", "99,255,128", "0,97"]))


def expr(r, depth, nrules=0, guarded=False):
    k = r.random()
    if depth == 0 or k < 0.25:
        if nrules and guarded and r.random() < 0.4:
            return ("rf", r.randrange(nrules) + 1)
        return prim(r)
    n = r.choice([0, 1, 1, 2, 2, 3, 4])
    steps = []
    for _ in range(n):
        steps.append(step(r, depth - 1, nrules, guarded))
        # what follows a character which must be there may be recursive
        if steps[-1][0] == "C" and steps[-1][2][0] not in ("cat", "rf"):
            guarded = True
    return ("cat", steps)


def step(r, depth, nrules, guarded):
    k = r.random()
    if k < 0.04:
        return ("N", expr(r, min(depth, 1)))
    if k < 0.4:
        return ("C", r.randrange(8), expr(r, depth, nrules, guarded))
    if k < 0.6:
        return ("O", r.randrange(8), expr(r, depth, nrules, guarded))
    if k < 0.8:
        lo = r.choice([0, 0, 1, 1, 2, 3])
        hi = r.choice([INF, INF, lo, lo + 1, lo + 2, lo + 5])
        return ("S", lo, hi, expr(r, depth, nrules, guarded))
    return ("A", [expr(r, depth, nrules, guarded) for _ in range(r.choice([1, 2, 2, 3, 4, 5, 0]))])


def sample(r, e, rules, fuel=30):
    """A text which e derives under the ABNF reading."""
    if fuel <= 0:
        return b""
    k = e[0]
    if k == "ch":
        c = bytes([e[1]])
        return c.swapcase() if r.random() < 0.3 else c
    if k == "rg":
        c = bytes([r.randrange(e[1], e[2] + 1)])
        return c.swapcase() if r.random() < 0.3 else c
    if k == "al":
        return bytes([r.choice(b"aAbBcCzZgG")])
    if k == "di":
        return bytes([r.choice(b"0189")])
    if k == "hx":
        return bytes([r.choice(b"09aAfF")])
    if k == "pr":
        return b"" if e[1] == "-" else bytes([int(r.choice(e[1].split(",")))])
    if k == "rf":
        return sample(r, rules[e[1] - 1], rules, fuel // 2)
    out = b""
    for s in e[1]:
        if s[0] == "C" or (s[0] == "O" and r.random() < 0.6):
            out += sample(r, s[2], rules, fuel - 1)
        elif s[0] == "S":
            n = s[1] + r.choice([0, 0, 1, 2, 5])
            if s[2] != INF and r.random() < 0.85:
                n = min(n, s[2])
            for _ in range(n):
                out += sample(r, s[3], rules, fuel - 2)
        elif s[0] == "A" and s[1]:
            out += sample(r, r.choice(s[1]), rules, fuel - 1)
    return out[:60]


class TooMuch(Exception):
    pass


def one(e, c):
    """Might the single-character rule take this character?  (A guess: for the estimate below only.)"""
    k = e[0]
    if k == "ch":
        return (c | 32) == (e[1] | 32)
    if k == "rg":
        return e[1] <= c <= e[2] or e[1] <= c ^ 32 <= e[2]
    if k == "pr":
        return e[1] != "-" and c in [int(x) for x in e[1].split(",")]
    return chr(c) in {"al": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "di": "0123456789", "hx": "0123456789abcdefABCDEF"}[k]


def affordable(e, rules, s, cap=20_000):
    """A recursive rule may try the same thing exponentially often.  True if matching s takes few tries."""
    left = [cap]

    def run(e, at):
        left[0] -= 1
        if left[0] < 0:
            raise TooMuch
        if e[0] == "rf":
            return run(rules[e[1] - 1], at)
        if e[0] != "cat":
            return at + 1 if at < len(s) and one(e, s[at]) else None
        for t in e[1]:
            if t[0] in "CO":
                n = run(t[2], at)
                if n is None and t[0] == "C":
                    return None
                at = at if n is None else n
            elif t[0] == "S":
                k = 0
                while k < t[2]:
                    n = run(t[3], at)
                    if n is None or (n == at and k >= t[1]):
                        break
                    at, k = n, k + 1
                if k < t[1]:
                    return None
            elif t[0] == "N":
                if run(t[1], at) is not None:
                    return None
            else:
                for x in t[1]:
                    n = run(x, at)
                    if n is not None:
                        at = n
                        break
                else:
                    return None
        return at
    try:
        run(e, 0)
        return True
    except (TooMuch, RecursionError):
        return False


def inputs(r, e, rules, n):
    out = [b""]
    for _ in range(n):
        s = sample(r, e, rules)
        k = r.random()
        if k < 0.25 and s:
            p = r.randrange(len(s))
            s = r.choice([s[:p] + s[p + 1:], s[:p] + bytes([r.choice(b"aAbBc1-")]) + s[p:], s[:p], s[p:]])
        elif k < 0.35:
            s += bytes([r.choice(b"aAbBc1-\x80")])
        out.append(s)
    return [s for s in dict.fromkeys(out) if not rules or affordable(e, rules, s)] or [b""]


def c20(check):
    found = {}

    def drv():
        found["drv"] = driver()

    def models():
        check.model("MC_Peg", cfg=f"MC_Peg_{check.tier}.cfg")

    def grammar():
        check.model("MC_UriPeg", cfg=f"MC_UriPeg_{check.tier}.cfg", need_abnf=True, workers=4)

    def fz():
        exe = core.fuzz_build("rule_fuzz", ["rule_fuzz.cpp"], ["rule"])
        r = rng(check, "seeds")
        seeds = [bytes(r.randrange(256) for _ in range(r.choice([20, 60, 120]))) for _ in range(60)]
        found["fuzz"] = core.fuzz(check, exe, "peg", seeds, {}, seconds=60 if check.thorough else 6, procs=4, max_len=200,
                                  cap=8000 if check.thorough else 1500)
    core.parallel(drv, models, grammar, fz)
    r = rng(check, "peg")
    ops = list(found["fuzz"])
    # each character against each single-character rule
    bytes1 = [bytes([c]) for c in range(256)]
    for e in [("al",), ("di",), ("hx",), ("rg", 97, 122), ("rg", 65, 90), ("rg", 48, 57), ("rg", 98, 98), ("rg", 66, 67), ("rg", 33, 47),
              ("rg", 97, 102), ("rg", 49, 53), ("rg", 50, 49)] + [("ch", c) for c in range(128)]:
        ops.append(op(e, bytes1, variant=r.randrange(4)))
    short = [bytes(s) for n in range(4) for s in itertools.product(b"ab", repeat=n)]
    exprs = small()
    if not check.thorough:
        exprs = exprs[:400] + r.sample(exprs, 2500)
    for e in exprs:
        ops.append(op(e, short, variant=r.randrange(4)))
    check.count("small_expressions", len(exprs))
    for _ in range(40_000 if check.thorough else 3_000):
        rules = []
        n = r.choice([0, 0, 0, 1, 2])
        while len(rules) < n:
            e = expr(r, 2, n, False)
            rules.append(e)
        e = expr(r, 3, n, True) if n else expr(r, 4)
        ops.append(op(e, inputs(r, e, rules, 6), rules, r.randrange(4)))
    # one character that matters among many that do not
    for e in (("cat", [("S", 0, INF, A)]), ("cat", [("S", 0, INF, ("cat", [("A", [("cat", [("C", 1, A)]), ("cat", [("C", 2, B)])])]))]),
              ("cat", [("S", 0, INF, A), ("C", 1, B), ("S", 0, INF, ("cat", [("C", 2, A)]))])):
        for k in range(0, 40, 1 if check.thorough else 3):
            ops.append(op(e, [b"a" * q + c + b"a" * (k - q) for q in range(k + 1) for c in (b"b", r.choice([b"c", b"B", b"A", b"\xe1"]))],
                          variant=r.randrange(4)))
    # long inputs and many repetitions
    for n in (100, 1000):
        for e in (("cat", [("S", 0, INF, A)]), ("cat", [("S", n, n, ("cat", [("C", 1, A)]))]), ("cat", [("S", 0, n - 1, A), ("C", 2, A)]),
                  ("cat", [("S", 1, INF, ("cat", [("O", 1, B), ("C", 3, A)]))])):
            ops.append(op(e, [b"a" * n, b"a" * (n - 1), b"a" * (n + 1), b"A" * (n // 2)], variant=r.randrange(4)))
    # a large grammar: that of a URI
    with open(core.abnf()) as f:
        g = {k: from_spec(e) for k, e in json.load(f)["peg"].items()}
    for _ in range(2000 if check.thorough else 120):
        ins = [gen.uri(r, rel=r.random() < 0.5) for _ in range(4)]
        ins += [gen.mutate(r, s) for s in ins] + [b"//[" + gen.mutate(r, r.choice(gen.HOSTS)).strip(b"[]") + b"]/"]
        ops.append(op(g[r.choice(["uri", "ref", "ref"])], [s[:60] for s in ins], variant=r.randrange(4)))
    check.judge_ops("Trace_Peg", found["drv"], ops, {"C20"}, "rules", need_abnf=False)
