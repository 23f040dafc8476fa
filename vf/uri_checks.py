"""C01..C08, C21: splitting, composing, validity, joining, dot segments, equality, paths."""
import itertools
import json
import random
import re
import subprocess

from . import core, gen


def rng(check, salt):
    return random.Random(f"{check.seed}/{check.pid}/{salt}")


def driver():
    return core.build("uri_drv", ["uri_drv.cpp"], core.LIB_URI)


def fuzzer():
    return core.fuzz_build("uri_fuzz", ["uri_fuzz.cpp"], core.LIB_URI)


# --- the grammar -----------------------------------------------------------------------
def nfa_file():
    path = core.tmp_path("ref.nfa")
    with open(core.abnf()) as f:
        a = json.load(f)["ref"]
    with open(path, "w") as f:
        f.write(f"{a['n']}\n")
        for x in a["follow"]:
            f.write(f"{len(x)} {' '.join(map(str, x))}\n")
        for c, r in zip(a["cls"], a["role"]):
            f.write(f"{len(c)} {' '.join(map(str, c))} {r}\n")
        f.write(f"{len(a['accept'])} {' '.join(map(str, a['accept']))}\n")
    return path


def automaton_conformance(check):
    """Replays the specification's automaton into the code; returns the strings on which
    they disagree as operations."""
    if isinstance(check, core.Collector):
        return []
    exe = core.build("dfa", ["dfa.cpp"], core.LIB_URI, flags=core.FAST)
    nfa = nfa_file()
    n = core.NCPU
    jobs = [["cover", str(k), str(n), "1" if check.thorough else "0"] for k in range(n)]
    walks = 6_000_000 if check.thorough else 400_000
    jobs += [["walk", str(k), str(n), str(walks), str(check.seed)] for k in range(n)]

    def one(j):
        return subprocess.run([exe, nfa] + j, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                              timeout=850)
    with core.cf.ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(one, jobs))
    bad = []
    for p in outs:
        bad += ["split " + m for m in re.findall(r"^(?:BAD|CRASH) (=[0-9a-f]*)$", p.stdout, re.M)]
        m = re.search(r"DONE states=(\d+) minimal=(\d+) reps=(\d+) suffixes=(\d+) tried=(\d+) accepted=(\d+) bad=\d+ cut=(\d+)", p.stdout)
        if m:
            check.cov["automaton"] = {"subset_states": int(m.group(1)), "minimal_states": int(m.group(2)),
                                      "byte_classes": int(m.group(3)), "suffixes": int(m.group(4))}
            check.count("traces_validated_against_impl", int(m.group(5)))
            check.count("automaton_strings", int(m.group(5)))
            check.count("automaton_strings_accepted", int(m.group(6)))
            check.count("automaton_transitions_without_further_step", int(m.group(7)))
        elif "CRASH" not in p.stdout:
            raise core.CheckError(f"dfa harness: {p.returncode} {p.stderr[-500:]} {p.stdout[-300:]}")
    check.log(f"automaton: {check.cov.get('automaton_strings', 0)} strings, {len(bad)} disagreements")
    return bad


def split_texts(check, salt, n):
    r = rng(check, salt)
    out = []
    for _ in range(n):
        b = gen.uri(r)
        if r.random() < 0.4:
            b = gen.mutate(r, b)
        out.append(b)
    # every byte in a few contexts
    for c in range(256):
        b = bytes([c])
        for pre, post in [(b"", b""), (b"a:", b""), (b"//h", b""), (b"/", b""), (b"//", b"@h"), (b"//h:", b""),
                          (b"?", b""), (b"#", b""), (b"a", b":"), (b"%", b"0"), (b"%0", b""), (b"//[::", b"]"),
                          (b"//[v", b".a]"), (b"//[v1.", b"]")]:
            out.append(pre + b + post)
    # one character that matters among many that do not
    for k, p in gen.places(r, 48, 700, check.thorough):
        fill = r.choice([b"a", b"a", b"1", b"-", b"%41"])
        one = r.choice([b" ", b"\xe9", b"\xff", b"\x00", b"%4g", b"%", b":", b"/", b"@", b"?", b"#", b"[", b"]", b"%2f", b"\"", b"."])
        pre, post = r.choice([(b"", b""), (b"a", b":"), (b"s:", b""), (b"//", b""), (b"//", b"@h"), (b"s://", b"/p"), (b"//h:", b""), (b"//h/", b"?q"),
                              (b"?", b""), (b"#", b""), (b"s://u@h/", b"#f"), (b"//[v1.", b"]")])
        out.append(pre + fill * p + one + fill * (k - 1 - p) + post)
    return out


def grammar_check(check, relevant):
    sizes = (60_000, 60) if check.thorough else (3_500, 8)
    found = {}

    def models():
        check.model("MC_AbnfDfa", cfg="MC_AbnfDfa.cfg", need_abnf=True)
        check.model("MC_AbnfAmb", cfg="MC_AbnfAmb.cfg", need_abnf=True)

    def automaton():
        found["bad"] = automaton_conformance(check)

    def fz():
        exe = fuzzer()
        r = rng(check, "seeds")
        seeds = [gen.uri(r)[:120] for _ in range(60)]
        found["fuzz"] = core.fuzz(check, exe, "split", seeds, {"VF_OP": "split"}, seconds=sizes[1], procs=4,
                                  max_len=200, cap=12000 if check.thorough else 2500)

    def drv():
        found["drv"] = driver()
    core.parallel(drv, models, automaton, fz)
    exe = found["drv"]
    ops = found["bad"] + ["split " + gen.hx(b) for b in split_texts(check, "split", sizes[0])] + found["fuzz"]
    check.judge_ops("Trace_Uri", exe, ops, relevant, "split")
    if found["bad"] and not check.violations:
        # the disagreement is about another property of split()
        check.log("disagreements with the automaton concern other properties")
    return exe


def c01(check):
    grammar_check(check, {"C01"})
    check.assumptions += ["The grammar in UriAbnf.tla transcribes RFC 3986 Appendix A.",
                          "Covers every implementation that distinguishes no more prefixes than the subset "
                          "automaton does, and those that do only where the walks and the fuzzer reach."]


def c02(check):
    grammar_check(check, {"C02"})


def c03(check):
    grammar_check(check, {"C03"})


# --- composing, validity ------------------------------------------------------------------
def c04(check):
    n = 60_000 if check.thorough else 5_000
    found = {}

    def drv():
        found["drv"] = driver()

    def models():
        check.model("MC_Compose", cfg=f"MC_Compose_{check.tier}.cfg", need_abnf=True)

    def automaton():
        found["bad"] = automaton_conformance(check)

    def fz():
        r = rng(check, "seeds")
        exe = fuzzer()
        found["fuzz"] = core.fuzz(check, exe, "compose", [core.fz_parts(**gen.any_parts(r)) for _ in range(60)],
                                  {"VF_OP": "compose"}, seconds=60 if check.thorough else 7, procs=3,
                                  cap=10000 if check.thorough else 2000)
        found["fuzz"] += core.fuzz(check, exe, "split", [gen.uri(r)[:120] for _ in range(40)], {"VF_OP": "split"},
                                   seconds=30 if check.thorough else 4, procs=3, max_len=200,
                                   cap=5000 if check.thorough else 800)
    core.parallel(drv, models, automaton, fz)
    ops = found["bad"] + found["fuzz"]
    ops += ["split " + gen.hx(b) for b in split_texts(check, "split", n // 4)[:n // 4 + 500]]
    ops += compose_ops(check, n)
    check.judge_ops("Trace_Uri", found["drv"], ops, {"C04"}, "compose")


def compose_ops(check, n):
    r = rng(check, "parts")
    ops = []
    null = lambda: r.random() < 0.3    # noqa: E731
    for _ in range(n):
        p = gen.canonical(r) if r.random() < 0.4 else gen.any_parts(r)
        ops.append("compose " + gen.parts_line(**p, null=null))
    # one character, or segment, that matters among many that do not
    for k, q in gen.places(r, 40, 350, check.thorough):
        fill = r.choice([b"a", b"1", b"%41"])
        one = r.choice([b" ", b"\xe9", b"%4", b":", b"/", b"@", b"?", b"#", b"[", b"%2f"])
        b = fill * q + one + fill * (k - 1 - q)
        p = r.choice([dict(scheme=b), dict(scheme=b"s", auth=(b, b"h", None)), dict(scheme=b"s", auth=(None, b, b"1")),
                      dict(scheme=b"s", auth=(None, b"h", b)), dict(scheme=b"s", segs=[b]), dict(scheme=b"s", query=b), dict(scheme=b"s", fragment=b)])
        ops.append("compose " + gen.parts_line(**p))
        segs = [b"a"] * k
        segs[q] = r.choice([b"", b"", b" ", b"/", b":", b"b%", b"?"])
        ops.append("compose " + gen.parts_line(scheme=b"s", auth=r.choice([None, (None, b"h", None)]), abs_=r.random() < 0.5, segs=segs))
    return ops


def valid_ops(check):
    """Each byte in each component, and component-specific boundary cases."""
    ops = []
    comp = [lambda b: dict(scheme=b), lambda b: dict(scheme=b"a" + b),
            lambda b: dict(scheme=b"s", auth=(b, b"h", None)), lambda b: dict(scheme=b"s", auth=(None, b, None)),
            lambda b: dict(scheme=b"s", auth=(None, b"h" + b, None)),
            lambda b: dict(scheme=b"s", auth=(None, b"[v1." + b + b"]", None)),
            lambda b: dict(scheme=b"s", auth=(None, b"[::" + b + b"]", None)),
            lambda b: dict(scheme=b"s", auth=(None, b"h", b)), lambda b: dict(scheme=b"s", abs_=True, segs=[b]),
            lambda b: dict(scheme=b"s", segs=[b"x", b"y" + b]), lambda b: dict(scheme=b"s", query=b),
            lambda b: dict(scheme=b"s", fragment=b), lambda b: dict(scheme=b"s", query=b"%" + b + b"0"),
            lambda b: dict(scheme=b"s", fragment=b"%0" + b), lambda b: dict(scheme=b"s", segs=[b"%" + b + b"a"])]
    for c in range(256):
        for f in comp:
            ops.append("compose " + gen.parts_line(**f(bytes([c]))))
    # every combination of presence with empty/non-empty, rooted or not
    for sch, auth, abs_, segs, q, f in itertools.product(
            [None, b"", b"s", b"1"],
            [None, (None, b"", None), (b"", b"h", b""), (None, b"h", b"80"), (None, b"h:", None), (b"@", b"", None)],
            [False, True], [[], [b""], [b"", b""], [b"a"], [b"", b"a"], [b"a", b""], [b"", b"", b"a"], [b":"], [b"a:b", b"c"]],
            [None, b"", b"?"], [None, b"", b"#"]):
        ops.append("compose " + gen.parts_line(scheme=sch, auth=auth, abs_=abs_, segs=segs, query=q, fragment=f))
    return ops


def c05(check):
    n = 60_000 if check.thorough else 4_000
    found = {}

    def drv():
        found["drv"] = driver()

    def models():
        check.model("MC_Compose", cfg=f"MC_Compose_{check.tier}.cfg", need_abnf=True)

    def fz():
        r = rng(check, "seeds")
        exe = fuzzer()
        found["fuzz"] = core.fuzz(check, exe, "compose", [core.fz_parts(**gen.any_parts(r)) for _ in range(80)],
                                  {"VF_OP": "compose"}, seconds=90 if check.thorough else 10, procs=4,
                                  cap=12000 if check.thorough else 3000)
    core.parallel(drv, models, fz)
    r = rng(check, "split")
    ops = valid_ops(check) + compose_ops(check, n) + found["fuzz"]
    # hosts: the language of IP literals through authority validity
    for _ in range(n // 2):
        h = gen.host(r)
        if r.random() < 0.5:
            h = gen.mutate(r, h)
        ops.append("compose " + gen.parts_line(scheme=b"s", auth=(None, h, None)))
    ops += ["split " + gen.hx(gen.uri(r)) for _ in range(n // 4)]
    check.judge_ops("Trace_Uri", found["drv"], ops, {"C05"}, "valid")


# --- joining ---------------------------------------------------------------------------------
def small_refs():
    """Every combination of small components."""
    segs = [[], [b"a"], [b"."], [b".."], [b"a", b""], [b"", b""], [b"a", b"b"], [b"a", b"."], [b"..", b"b"], [b".", b".."],
            [b"a", b"..", b".."], [b"a", b"", b"b"], [b"", b"a"], [b"..", b"..", b"c", b""]]
    out = []
    for sch in (None, b"s", b"S", b"t"):
        for auth in (None, b"", b"h", b"u@h:8"):
            for s in segs:
                for root in (False, True):
                    if not s and root:
                        continue
                    if auth is None and s and s[0] == b"" and (not root or len(s) > 1):
                        continue
                    if auth is not None and s and not root:
                        continue
                    t = b"".join([sch + b":" if sch else b"", b"//" + auth if auth is not None else b"",
                                  b"/" if root else b"", b"/".join(s)])
                    for q in (None, b"", b"q"):
                        for f in (None, b"f"):
                            out.append(t + (b"?" + q if q is not None else b"") + (b"#" + f if f is not None else b""))
    return out


def akin(r, b):
    """A base and a reference which have much in common."""
    if r.random() < 0.5:
        cut = b.find(b"/", b.find(b"//") + 2) if b"//" in b else b.find(b":") + 1
        at = cut if cut > 0 else len(b)
        b = b[:at] + b"/" * (not b[at:at + 1] == b"/") + r.choice([b"x/../y", b"./z", b"a/..", b"..", b".", b"x//../y", b"a/./b"]) + r.choice([b"", b"/", b"?q", b"?", b"/../c"])
    k = r.random()
    x = b
    if k < 0.35:
        pass
    elif k < 0.5:
        x = b[:r.randrange(len(b) + 1)]
    elif k < 0.65:
        x = b + r.choice([b"/", b"/..", b"?q", b"#f", b"x", b"/.", b"#"])
    elif k < 0.75:
        b = b + r.choice([b"/", b"/..", b"?q", b"#f", b"x", b"/.", b"#"])
    elif k < 0.9:
        x = b[b.find(b":") + 1:]
    else:
        x = b.swapcase()
    return b, x


def c06(check):
    n = 80_000 if check.thorough else 5_000
    found = {}

    def drv():
        found["drv"] = driver()

    def models():
        check.model("MC_Join", cfg=f"MC_Join_{check.tier}.cfg", need_abnf=True)
        check.model("MC_RemoveDots", cfg="MC_RemoveDots_quick.cfg")

    def fz():
        r = rng(check, "seeds")
        exe = fuzzer()
        sec = 60 if check.thorough else 6
        found["fuzz"] = core.fuzz(check, exe, "joins",
                                  [bytes([r.randrange(2)]) + core.fz_field(gen.uri(r, rel=False)[:100]) + gen.uri(r)[:100]
                                   for _ in range(80)], {"VF_OP": "joins"}, seconds=sec, procs=4,
                                  cap=10000 if check.thorough else 1800)
        found["fuzz"] += core.fuzz(check, exe, "joinp",
                                   [bytes([r.randrange(2)]) + core.fz_parts(**gen.canonical(r))
                                    + core.fz_parts(**gen.canonical(r)) for _ in range(60)],
                                   {"VF_OP": "joinp"}, seconds=sec, procs=4, cap=8000 if check.thorough else 1200)
    core.parallel(drv, models, fz)
    r = rng(check, "join")
    ops = []
    refs = small_refs()
    bases = [b for b in refs if b.split(b":")[0] in (b"s", b"S", b"t") and b":" in b and b"?" not in b and b"#" not in b]
    pairs = [(b, x) for b in bases for x in refs]
    r.shuffle(pairs)
    for b, x in pairs[:120_000 if check.thorough else 6_000]:
        q = r.choice([b"", b"?bq", b"?", b"#bf"])
        ops.append(f"joins {r.randrange(2)} {gen.hx(b + q)} {gen.hx(x)}")
    for _ in range(n):
        b = gen.uri(r, rel=False)
        x = gen.uri(r)
        k = r.random()
        if k < 0.06:
            b = gen.mutate(r, b)
        elif k < 0.12:
            x = gen.mutate(r, x)
        elif k < 0.16:
            b = gen.uri(r, rel=True)
        elif k < 0.4:     # the same scheme
            x = b.split(b":")[0] + b":" + gen.uri(r, rel=True)
        elif k < 0.55:    # base and reference have much in common
            b, x = akin(r, b)
        extra = " d" if r.random() < 0.2 else ""
        ops.append(f"joins {r.randrange(2)} {gen.hx(b)} {gen.hx(x)}{extra}")
    for _ in range(n // 2):
        b = gen.canonical(r)
        x = gen.canonical(r)
        k = r.random()
        if k < 0.2:
            x["scheme"] = b["scheme"]
        elif k < 0.4:     # all the same but for some components
            keep = r.sample(sorted(b), r.randrange(len(b) + 1))
            x = {**x, **{f: b[f] for f in keep}}
        if r.random() < 0.2:
            b["scheme"] = None
        ops.append(f"joinp {r.randrange(2)} {gen.parts_line(**b)} {gen.parts_line(**x)}")
    for k, p in gen.places(r, 36, 250, check.thorough):     # one segment that matters among many that do not
        ss = [b"a"] * k
        ss[p] = r.choice([b"..", b".", b"", b"b:c"])
        t = b"/".join(ss)
        b, x = r.choice([(b"s://h/x/y", t), (b"s://h/" + t, b"z"), (b"s:" + t, b"../z"), (b"s://h/" + t, b"../" * r.randrange(k + 2) + b"z"),
                         (b"s:a", b"./" + t), (b"s:/" + t + b"/", t)])
        ops.append(f"joins {r.randrange(2)} {gen.hx(b)} {gen.hx(x)}")
    check.judge_ops("Trace_Uri", found["drv"], ops + found["fuzz"], {"C06"}, "join")


# --- dot segments ------------------------------------------------------------------------------
def c07(check):
    n = 60_000 if check.thorough else 4_000
    found = {}

    def drv():
        found["drv"] = driver()

    def models():
        check.model("MC_RemoveDots", cfg=f"MC_RemoveDots_{check.tier}.cfg")

    def fz():
        r = rng(check, "seeds")
        exe = fuzzer()
        found["fuzz"] = core.fuzz(check, exe, "rds",
                                  [core.fz_parts(abs_=r.random() < 0.5, segs=gen.segments(r, 12)) for _ in range(80)],
                                  {"VF_OP": "rds"}, seconds=60 if check.thorough else 8, procs=3,
                                  cap=10000 if check.thorough else 3000)
    core.parallel(drv, models, fz)
    r = rng(check, "rds")
    ops = []
    # every sequence of up to 6 (8) of the kinds of segment
    kinds = [b".", b"..", b"", b"a"]
    for k in range(0, 9 if check.thorough else 7):
        for s in itertools.product(kinds, repeat=k):
            ops.append("rds " + gen.parts_line(abs_=True, segs=list(s)))
            if k < 6:
                ops.append("rds " + gen.parts_line(abs_=False, segs=list(s)))
    for _ in range(n):
        k = r.choice([3, 5, 8, 12, 20, 40])
        pool = r.choice([gen.SEGS, [b".", b"..", b"a", b"b", b"c", b""], [b"..", b"x", b"y", b"z"],
                         [b".", b"..", b"...", b".a", b"a.", b"..a", b"%2e", b"%2e%2e", b"%2E."]])
        s = [r.choice(pool) for _ in range(r.randrange(k + 1))]
        if r.random() < 0.1:
            s = [gen.segment(r) for _ in s]
        ops.append("rds " + gen.parts_line(abs_=r.random() < 0.6, segs=s, null=lambda: r.random() < 0.3))
    for k, p in gen.places(r, 40, 500, check.thorough):     # one segment that matters among many that do not
        s = [r.choice([b"a", b"bb"]) for _ in range(k)]
        s[p] = r.choice([b"..", b".", b""])
        ops.append("rds " + gen.parts_line(abs_=r.random() < 0.6, segs=s))
    check.judge_ops("Trace_Uri", found["drv"], ops + found["fuzz"], {"C07"}, "rds", need_abnf=True)
    check.cov["exhaustive_to_segments"] = 8 if check.thorough else 6


# --- equality ------------------------------------------------------------------------------------
def vary(r, p):
    q = dict(p)
    q["segs"] = list(p["segs"])
    k = r.randrange(10)
    if k == 0:
        q["abs_"] = not p["abs_"]
    elif k == 1:
        q["scheme"] = r.choice([None, b"", b"a", (p["scheme"] or b"a").swapcase()])
    elif k == 2:
        q["query"] = r.choice([None, b"", b"a", p["fragment"]])
    elif k == 3:
        q["fragment"] = r.choice([None, b"", b"a", p["query"]])
    elif k == 4:
        q["auth"] = r.choice([None, (None, b"", None), p["auth"]])
    elif k in (5, 6) and p["auth"]:
        u, h, po = p["auth"]
        q["auth"] = r.choice([(None, h, po), (b"", h, po), (u, h, None), (u, h, b""), (u, h.swapcase(), po), (u, b"", po),
                              (po, h, u)])
    elif k == 7 and q["segs"]:
        q["segs"][r.randrange(len(q["segs"]))] = gen.segment(r)
    elif k == 8:
        q["segs"] = q["segs"] + [r.choice([b"", b"a"])]
    elif k == 9 and len(q["segs"]) > 1:
        q["segs"][-1], q["segs"][0] = q["segs"][0], q["segs"][-1]
    return q


def c08(check):
    n = 40_000 if check.thorough else 6_000
    found = {}

    def drv():
        found["drv"] = driver()

    def models():
        check.model("MC_Compose", cfg=f"MC_Compose_{check.tier}.cfg", need_abnf=True)

    def fz():
        r = rng(check, "seeds")
        exe = fuzzer()
        seeds = []
        for _ in range(60):
            p = gen.any_parts(r)
            seeds.append(core.fz_parts(**p) + bytes([0]) + core.fz_parts(**vary(r, p)) + core.fz_parts(**vary(r, p)))
        found["fuzz"] = core.fuzz(check, exe, "eq", seeds, {"VF_OP": "eq"}, seconds=60 if check.thorough else 7, procs=3,
                                  cap=8000 if check.thorough else 1500)
    core.parallel(drv, models, fz)
    r = rng(check, "eq")
    ops = []
    null = lambda: r.random() < 0.3    # noqa: E731
    for _ in range(n):
        p = gen.any_parts(r)
        q = vary(r, p)
        s = vary(r, r.choice([p, q]))
        ops.append("eq " + " ".join(gen.parts_line(**x, null=null) for x in (p, q, s)))
    for k, p in gen.places(r, 40, 400, check.thorough):     # one difference, anywhere
        b = b"a" * k
        c = b[:p] + r.choice([b"b", b"A", b"\xe1", b"!", b"\x00", b""]) + b[p + 1:]
        ss, ts = [b"s"] * k, [b"s"] * k
        ts[p] = r.choice([b"t", b"", b"S", b"ss"])
        x, y = r.choice([(dict(scheme=b), dict(scheme=c)), (dict(auth=(b, b"h", None)), dict(auth=(c, b"h", None))),
                         (dict(auth=(None, b, None)), dict(auth=(None, c, None))), (dict(auth=(None, b"h", b)), dict(auth=(None, b"h", c))),
                         (dict(segs=[b]), dict(segs=[c])), (dict(query=b), dict(query=c)), (dict(fragment=b), dict(fragment=c)),
                         (dict(segs=ss), dict(segs=ts)), (dict(auth=(None, b"h", None), segs=ss), dict(auth=(None, b"h", None), segs=ts))])
        ops.append("eq " + " ".join(gen.parts_line(**z, null=null) for z in (x, y, x)))
    check.judge_ops("Trace_Uri", found["drv"], ops + found["fuzz"], {"C08"}, "eq")


# --- conversions ------------------------------------------------------------------------------------
def c21(check):
    n = 40_000 if check.thorough else 5_000
    found = {}

    def drv():
        found["drv"] = driver()

    def models():
        check.model("MC_RemoveDots", cfg="MC_RemoveDots_quick.cfg")

    def fz():
        r = rng(check, "seeds")
        exe = fuzzer()
        found["fuzz"] = core.fuzz(check, exe, "path", [core.fz_parts(**gen.any_parts(r)) for _ in range(60)],
                                  {"VF_OP": "path"}, seconds=60 if check.thorough else 7, procs=3,
                                  cap=8000 if check.thorough else 2000)
    core.parallel(drv, models, fz)
    r = rng(check, "path")
    ops = []
    null = lambda: r.random() < 0.3    # noqa: E731
    for k in range(0, 6):
        for s in itertools.product([b"", b"a", b".."], repeat=k):
            for a in (True, False):
                ops.append("path " + gen.parts_line(abs_=a, segs=list(s)))
    for _ in range(n):
        p = gen.any_parts(r)
        if r.random() < 0.1 and p["segs"]:
            p["segs"][r.randrange(len(p["segs"]))] = r.choice([b"/", b"/x", b"x/", b"a/b", b"\\", b"C:", b"//"])
        ops.append("path " + gen.parts_line(**p, null=null))
    ops += compose_ops(check, n // 3)
    check.judge_ops("Trace_Uri", found["drv"], ops + found["fuzz"], {"C21"}, "path")
