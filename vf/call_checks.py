"""C24: every call returns, touches nothing but its arguments and result, and depends on
nothing but its arguments. The operations of all other checks are performed in many
histories: in other orders, by several threads at once, in other locales, with other
memory contents, by other builds; whatever a call did the first time, it has to do always."""
import importlib
import json
import os
import random
import re
import subprocess

from . import core, gen, pump, registry
from .uri_checks import rng

LIBS = {"uri": core.LIB_URI, "pct": ["pctencode"], "puny": ["punycode"], "parts": core.LIB_ALL, "utf": [], "rule": ["rule"], "algo": []}
SOURCES = {"utf": ["utf_drv.cpp", "utf_f8.cpp", "utf_f16.cpp", "utf_f32.cpp", "utf_fx.cpp"]}
OF = {"Trace_Uri": "uri", "Trace_Pct": "pct", "Trace_Puny": "puny", "Trace_Session": "parts", "Trace_Utf": "utf", "Trace_Peg": "rule",
      "Trace_Algo": "algo"}
BUILDS = {"san": (core.SAN, "g++"), "tsan": (["-O1", "-g1", "-fsanitize=thread"], "g++"), "plain": (["-O2", "-g1"], "g++"),
          "clang": (["-O2"], "clang++")}


def exe_of(drv, kind):
    flags, cxx = BUILDS[kind]
    name = f"{drv}_drv" if kind == "san" else f"{drv}_{kind}"
    try:
        return core.build(name, SOURCES.get(drv, [f"{drv}_drv.cpp"]), LIBS[drv], flags=flags, cxx=cxx)
    except core.CheckError:
        if kind != "clang":
            raise
        return exe_of(drv, "plain")   # (a tree which the other compiler does not take)


def collect(check):
    """Operations of every other check, by driver."""
    core.COLLECTING = True
    ops = {d: [] for d in LIBS}
    try:
        for pid, (module, func) in sorted(registry.CHECKS.items()):
            if pid in ("C22", "C24"):
                continue
            c = core.Collector(check, pid)
            getattr(importlib.import_module("vf." + module), func)(c)
            r = rng(check, "collect" + pid)
            for m, xs in c.got:
                xs = [x for x in xs if len(x) < (12_000 if OF[m] == "algo" else 3_000)]
                r.shuffle(xs)
                ops[OF[m]].append(xs)
    finally:
        core.COLLECTING = False
    return ops


def in_order(exe, ops, order, env=None):
    """One history in one process; the results in the order of ops."""
    got = core.drive(exe, [ops[k] for k in order], env=env, shards=1)
    out = [None] * len(ops)
    for j, k in enumerate(order):
        out[k] = got[j]
    return out


def crash(line, why):
    return json.dumps({"op": "crash", "of": line.split(" ", 1)[0], "line": line[:2000], "why": why[:1500]})


def in_threads(exe, ops, n, env=None, timeout=240):
    """n histories at once."""
    e = dict(core.DRV_ENV)
    e["TSAN_OPTIONS"] = "halt_on_error=1:second_deadlock_stack=0"
    e["VF_THREADS"] = str(n)
    e.update(env or {})
    try:
        p = subprocess.run([exe], input=("\n".join(ops) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                           timeout=timeout)
        lines, err, rc = p.stdout.decode("ascii", "replace").split("\n")[:-1], p.stderr.decode("ascii", "replace"), p.returncode
    except subprocess.TimeoutExpired:
        lines, err, rc = [], "timeout", -1
    if rc == 0 and len(lines) == n * len(ops):
        return [lines[k * len(ops):(k + 1) * len(ops)] for k in range(n)]
    if "unexpected memory mapping" in err or rc == 3:
        return None
    # which operations, nobody knows: those which fail alone are found by the other histories
    m = re.search(r"WARNING: ThreadSanitizer: [^\n]*(?:\n[^\n]*){0,30}", err)
    return [[crash("threads", m.group(0) if m else f"exit {rc} " + err[-800:])] + [None] * (len(ops) - 1)]


VALGRIND = ["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=no", "--leak-check=no"]


def under_valgrind(exe, ops, timeout=400):
    """The operations that read memory nobody wrote, as indices."""
    def bad(xs):
        p = subprocess.run(VALGRIND + [exe], input=("\n".join(xs) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(core.DRV_ENV), timeout=timeout)
        return p.returncode == 9, p.returncode, p.stderr.decode("ascii", "replace")

    b, rc, err = bad(ops)
    if not b:
        return [] if rc == 0 else None, err
    lo, hi = 0, len(ops)
    while hi - lo > 1:      # any one of them
        mid = (lo + hi) // 2
        if bad(ops[lo:mid])[0]:
            hi = mid
        else:
            lo = mid
    return [lo], bad(ops[lo:lo + 1])[2] or err


HUGE = ["split", "compose", "rds", "join", "eq", "path", "dec", "push", "ill", "bytes"]


def c24(check):
    n = 15_000 if check.thorough else 1_200
    found = {}
    check.log("collecting")
    collected = collect(check)
    drivers = list(LIBS)
    builds = {}

    def mk(kind):
        for d in ("algo", "utf", "parts", "uri", "rule", "puny", "pct"):
            builds[d, kind] = exe_of(d, kind)

    def models():
        check.model("MC_Calls", cfg=f"MC_Calls_{check.tier}.cfg", workers=1)
    core.parallel(models, *[lambda k=k: mk(k) for k in BUILDS])
    check.log("built")
    locales = core.locales()
    check.cov["locales"] = [x for x, _ in locales]
    if not locales:
        check.assumptions.append("localedef made no locale here: locales were not varied.")
    totals = {"operations": 0, "histories": {}, "calls": 0}

    def one(d):
        r = rng(check, "order" + d)
        per = n // 4 if d == "algo" else n
        ops = []
        for xs in collected[d]:
            ops += xs[:max(1, per // len(collected[d]))]
        ops = list(dict.fromkeys(ops))
        r.shuffle(ops)
        k = len(ops)
        fwd, rev = list(range(k)), list(range(k - 1, -1, -1))
        hist = []     # (name, results)

        def add(name, res):
            if res is not None:
                hist.append((name, res))
        todo = [lambda: add("first", in_order(builds[d, "san"], ops, fwd)),
                lambda: add("reversed", in_order(builds[d, "san"], ops, rev)),
                lambda: add("nested", in_order(builds[d, "san"], ops, r.sample(fwd, k), {"VF_INTRUDE": "1"})),
                lambda: add("abandoned", in_order(builds[d, "san"], ops, r.sample(fwd, k), {"VF_INTRUDE": "2"})),
                lambda: add("plain", in_order(builds[d, "plain"], ops, r.sample(fwd, k), {"MALLOC_PERTURB_": "165"})),
                lambda: add("clang", in_order(builds[d, "clang"], ops, r.sample(fwd, k), {"MALLOC_PERTURB_": "90"}))]
        for name, env in locales:
            todo.append(lambda name=name, env=env: add(name, in_order(builds[d, "plain"], ops, r.sample(fwd, k), env)))

        def threads():
            got = in_threads(builds[d, "tsan"], ops[:k // 2], 4)
            if got is None:
                check.assumptions.append("ThreadSanitizer does not run here: threads were not tried.")
            for j, g in enumerate(got or []):
                add(f"thread{j}", g + [None] * (k - len(g)))
            got = in_threads(builds[d, "plain"], ops, 8)
            for j, g in enumerate(got or []):
                add(f"fast{j}", g)

        def memcheck():
            some = [o for o in ops if len(o) < 1500][:400 if check.thorough else 60 if d in ("algo", "utf") else 120]
            try:
                bad, err = under_valgrind(builds[d, "plain"], some)
            except (OSError, subprocess.TimeoutExpired):
                bad, err = None, "did not finish"
            if bad is None:
                check.assumptions.append(f"valgrind did not finish ({d}).")
                return
            check.count("memcheck_calls", len(some))
            res = [None] * k
            for b in bad:
                res[ops.index(some[b])] = crash(some[b], "valgrind: " + err)
            if bad:
                add("memcheck", res)
        todo += [threads, memcheck]
        core.parallel(*todo)
        # (the order in which they ended is nobody's concern)
        hist.sort(key=lambda h: h[0])
        number = {}
        events = []
        for j in range(k):
            how, res = [], []
            for name, rs in hist:
                x = rs[j]
                if x is None or x.startswith('{"op": "skipped"') or (name == "abandoned" and core.ended(x)):
                    continue
                how.append(name)
                res.append(0 if x.startswith('{"op": "crash"') else number.setdefault(x, len(number) + 1))
            events.append((j, how, res))
        with check.lock:
            totals["operations"] += k
            totals["calls"] += sum(len(x[1]) for x in events)
            for name, _ in hist:
                totals["histories"][name] = totals["histories"].get(name, 0) + 1
        found[d] = (ops, hist, events)
        check.log(f"{d}: {k} operations in {len(hist)} histories")
    with core.cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(one, drivers))
    lines, what = [], []
    for d in drivers:
        ops, hist, events = found[d]
        by = dict(hist)
        for j, how, res in events:
            e = {"op": "pure", "of": d, "call": j + 1, "how": how, "results": res}
            lines.append(json.dumps(e))
            what.append((d, j))
    names = []
    for d, j in what:
        ops, hist, _ = found[d]
        names.append(f"{d}: {ops[j]}")
    rejects, _r = core.judge("Trace_Pure", lines, need_abnf=False)
    check.count("traces_validated_against_impl", totals["calls"])
    check.cov["operations"] = totals["operations"]
    check.cov["histories"] = totals["histories"]
    check.sample({"stage": "histories", "op": names[0][:300], "event": lines[0][:600]})
    for o in names:
        check.distinct.add(hash(o))
    for k in sorted(rejects):
        d, j = what[k]
        ops, hist, _ = found[d]
        seen = {name: rs[j][:1500] for name, rs in hist if rs[j] is not None}
        kinds = {}
        for name, x in seen.items():
            kinds.setdefault(x, []).append(name)
        check.violation(f"histories: {sorted(rejects[k])}",
                        {"driver": d, "op": ops[j], "results": [{"in": v, "result": x} for x, v in list(kinds.items())[:4]]})
    sweep(check, collected, builds)
    huge(check, builds)


ARG = re.compile(r"=((?:[0-9a-f]{2})+)")


def cut(r, op):
    """The operation with one argument ending early."""
    args = list(ARG.finditer(op))
    if not args:
        return None
    m = r.choice(args)
    k = 2 * r.randrange(len(m.group(1)) // 2)
    return op[:m.start(1) + k] + op[m.end(1):]


def sweep(check, collected, builds):
    """All the operations, once each, and many with arguments that end early: none fails or touches what is not its own."""
    cap = 120_000 if check.thorough else 16_000
    names, lines = [], []
    for d in LIBS:
        r = rng(check, "sweep" + d)
        per = cap // 4 if d in ("algo", "utf") else cap
        ops = []
        for xs in collected[d]:
            ops += xs[:per // (2 * len(collected[d]))]
        # (what a recursive rule costs is known for the texts it was generated with only)
        cuttable = [x for x in ops if " rf " not in x]
        ops += [x for x in (cut(r, r.choice(cuttable)) for _ in range(per // 2)) if x]
        if d == "uri":     # each text of an IP literal or of a host, cut everywhere
            for t in gen.HOSTS:
                ops += ["split " + gen.hx(p + t[:k]) for k in range(len(t) + 1) for p in (b"//", b"s://u@")]
        ops = list(dict.fromkeys(ops))
        for o, e in zip(ops, core.drive(builds[d, "san"], ops)):
            if e.startswith('{"op": "skipped"'):
                continue
            names.append((d, o, e))
            lines.append(json.dumps({"op": "pure", "of": d, "call": len(names), "how": ["sweep"], "results": [0 if e.startswith('{"op": "crash"') else 1]}))
    rejects, _r = core.judge("Trace_Pure", lines, need_abnf=False)
    check.count("traces_validated_against_impl", len(lines))
    check.cov["swept_calls"] = len(lines)
    for k in sorted(rejects):
        d, o, e = names[k]
        check.violation(f"sweep: {sorted(rejects[k])}", {"driver": d, "op": o, "event": e[:3000]})
    check.log(f"sweep: {len(lines)} operations")


def huge(check, builds):
    """Arguments of a million characters: each call returns, and each build says the same."""
    n = 400_008
    events, what = [], []
    number = {}
    slow = 0
    for fam in HUGE:
        drv, _, _, _, _, fs = pump.FAMILIES[fam]
        ops = [f(n) for f in fs()]
        templates = [f(3) for f in fs()]
        if not check.thorough:
            keep = sorted(rng(check, "huge" + fam).sample(range(len(ops)), min(len(ops), 8)))
            ops, templates = [ops[k] for k in keep], [templates[k] for k in keep]
        got = [("plain", core.drive(builds[drv, "plain"], ops, heavy=True)), ("clang", core.drive(builds[drv, "clang"], ops, heavy=True))]
        core.TIMEOUTS.clear()
        for j, t in enumerate(templates):
            res = []
            # (A call that takes long for want of a better algorithm breaks nothing: pump has the endless ones.)
            if any("timeout" in g[j][-200:] or g[j].startswith('{"op": "skipped"') for _, g in got):
                slow += 1
                continue
            for _, g in got:
                x = g[j]
                res.append(0 if x.startswith('{"op": "crash"') else number.setdefault(hash(x), len(number) + 1))
            events.append(json.dumps({"op": "pure", "of": "huge", "call": len(events) + 1, "how": [m for m, _ in got], "results": res}))
            what.append((fam, t, [g[j][:600] for _, g in got]))
    rejects, _r = core.judge("Trace_Pure", events, need_abnf=False)
    check.count("traces_validated_against_impl", 2 * len(events))
    check.cov["huge_calls"] = len(events)
    check.cov["huge_calls_not_awaited"] = slow
    for k in sorted(rejects):
        fam, t, seen = what[k]
        check.violation(f"huge: {sorted(rejects[k])}", {"family": fam, "repetitions": n, "with 3 of them": t[:600], "results": seen})
    check.log(f"huge: {len(events)} operations")
