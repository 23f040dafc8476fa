"""C23: find_last and starts_with."""
import itertools

from . import core, gen
from .uri_checks import rng

KINDS = ["vector", "cvector", "span", "deque", "list", "flist", "counted", "lended", "vended", "fended", "while", "drop", "reverse"]
PROJ = ["id", "half", "neg", "ptr", "const"]


def driver():
    return core.build("algo_drv", ["algo_drv.cpp"])


def csv(s):
    return ",".join(map(str, s))


def c23(check):
    found = {}

    def drv():
        found["drv"] = driver()

    def models():
        check.model("MC_Algo", cfg=f"MC_Algo_{check.tier}.cfg")
    core.parallel(drv, models)
    r = rng(check, "algo")
    most = 6 if check.thorough else 4
    seqs = [s for n in range(most + 1) for s in itertools.product(range(3), repeat=n)]
    ops = []
    values = {"id": [0, 1, 3], "half": [0, 1], "neg": [0, -1], "ptr": [0, 3, 1], "const": [1, 0], "member": [0, 1, 2]}
    for kind in KINDS:
        for p in PROJ + (["member"] if kind in ("vector", "flist") else []):
            for api in "ri":
                runs = [f"{v}:{csv(s)}" for s in seqs for v in values[p]]
                for k in range(0, len(runs), 250):
                    ops.append(f"fl {kind} {api} {p} " + " ".join(runs[k:k + 250]))
                big = []
                for _ in range(400 if check.thorough else 12):
                    s = [r.randrange(-3, 4) for _ in range(r.choice([7, 15, 16, 17, 31, 33, 64, 100]))]
                    big.append(f"{r.randrange(-3, 5)}:{csv(s)}")
                ops.append(f"fl {kind} {api} {p} " + " ".join(big))
                # one element among many others
                one = []
                for k, q in gen.places(r, 36, 120, check.thorough):
                    s = [2] * k
                    s[q] = values[p][0]
                    one.append(f"{r.choice(values[p])}:{csv(s)}")
                ops.append(f"fl {kind} {api} {p} " + " ".join(one))
    small = [s for n in range(4) for s in itertools.product(range(3 if check.thorough else 2), repeat=n)]
    for k1 in ["vector", "list", "fended", "input", "unbounded"]:
        for k2 in ["vector", "flist", "lended", "input"]:
            for api in "ri":
                for pred in ["eq", "le", "lt", "any"]:
                    for p1, p2 in [("id", "id"), ("half", "id"), ("id", "neg"), ("ptr", "half")]:
                        runs = [f"{csv(a)}:{csv(b)}" for a in small for b in small]
                        for _ in range(30):
                            a = [r.randrange(-2, 7) for _ in range(r.randrange(12))]
                            b = a[:r.randrange(len(a) + 1)]
                            if b and r.random() < 0.4:
                                b[r.randrange(len(b))] += r.choice([-1, 1])
                            if r.random() < 0.2:
                                b = b + [r.randrange(-2, 7)]
                            runs.append(f"{csv(a)}:{csv(b)}")
                        for k, q in gen.places(r, 20, 24, check.thorough and api == "r"):
                            a, b = [1] * k, [1] * k
                            b[q] += r.choice([-1, 1])
                            runs.append(f"{csv(a + [1] * r.randrange(2))}:{csv(b)}")
                        ops.append(f"sw {k1} {k2} {api} {pred} {p1} {p2} " + " ".join(runs))
    check.judge_ops("Trace_Algo", found["drv"], ops, {"C23"}, "algorithms", need_abnf=False)
    check.count("runs", sum(o.count(":") for o in ops))
