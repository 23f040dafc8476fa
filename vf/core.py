"""Shared machinery of the checks: building the drivers from /repo, running them,
running TLC, judging logs, reporting."""
import collections
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
DRV = os.path.join(ROOT, "drv")
BUILD = os.path.join(ROOT, "build")
OUT = os.path.join(ROOT, "out")
KNOWN = os.path.join(ROOT, "known_findings.txt")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 8))

SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-D_GLIBCXX_ASSERTIONS"]
FAST = ["-O2", "-D_GLIBCXX_ASSERTIONS"]
FUZZ = ["-O1", "-g1", "-fsanitize=fuzzer,address", "-DVF_FUZZ", "-DVF_NO_MAIN"]

LIB_URI = ["uri", "rule"]
LIB_ALL = ["uri", "rule", "parts", "pctencode", "punycode"]


def ended(event):
    """What was abandoned was (as is its right) declared to throw nothing."""
    return "'vf::abandoned'" in event[-600:]


class CheckError(Exception):
    """The check itself could not do its work."""


class Rejected(CheckError):
    """The library compiles, but no longer with a use of its public interface that a driver makes."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


# --- building -------------------------------------------------------------------
def tree_files():
    r = []
    for base in ("include", "lib", "tools"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            r += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".cpp", ".h"))]
    r += [os.path.join(DRV, f) for f in os.listdir(DRV)]
    return sorted(r)


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for f in tree_files():
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
        _tree_hash = h.hexdigest()
    return _tree_hash


def _compile(cxx, src, flags):
    key = hashlib.sha256("\0".join([tree_hash(), cxx, src] + flags).encode()).hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    obj = os.path.join(BUILD, f"{os.path.basename(src)}.{key}.o")
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.{threading.get_ident()}"
        r = sh([cxx, "-std=c++20", "-I", os.path.join(REPO, "include"), "-I", DRV, "-c", src,
                "-o", tmp] + flags)
        if r.returncode != 0:
            what = f"cannot compile {src}:\n{r.stdout[-4000:]}"
            if cxx == "g++" and src.startswith(DRV + os.sep) and r.returncode == 1 and _rejects(r.stdout) and _compiles():
                raise Rejected(what)
            raise CheckError(what)
        os.replace(tmp, obj)
    return obj


def _rejects(out):
    """Does the compiler report errors in the program (not in itself or in its surroundings)?"""
    return re.search(r"^\S+:\d+:\d+: error: ", out, re.M) is not None and not re.search(
        r"fatal error|internal compiler error|Killed|No space left|virtual memory", out)


def _compiles():
    """Do the library's own sources and headers compile by themselves?"""
    def one(k):
        src, text = k
        return sh(["g++", "-std=c++20", "-fsyntax-only", "-I", os.path.join(REPO, "include"), "-x", "c++", src],
                  input=text).returncode == 0
    inc = os.path.join(REPO, "include/uri")
    every = "".join(f'#include "uri/{h}"\n' for h in sorted(os.listdir(inc)) if h.endswith(".hpp"))
    lib = os.path.join(REPO, "lib/uri")
    jobs = [("-", every)] + [(os.path.join(lib, f), None) for f in sorted(os.listdir(lib)) if f.endswith(".cpp")]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return all(ex.map(one, jobs))


def build(name, sources, libs=(), flags=SAN, cxx="g++"):
    """sources: files of drv/; libs: translation units of the library under test."""
    srcs = [s if s.startswith("/") else os.path.join(DRV, s) for s in sources]
    srcs += [os.path.join(REPO, "lib/uri", f"{x}.cpp") for x in libs]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: _compile(cxx, s, flags), srcs))
    exe = os.path.join(BUILD, name + "." + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}"
        link = [f for f in flags if f.startswith("-fsanitize") or f.startswith("-l")]
        r = sh([cxx, "-o", tmp] + objs + link)
        if r.returncode != 0:
            raise CheckError(f"cannot link {name}:\n{r.stdout[-4000:]}")
        os.replace(tmp, exe)
    return exe


# --- running a driver --------------------------------------------------------------
DRV_ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"),
           "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1",
           "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1"}


TIMEOUTS = []     # operations which did not return in time, in this run


def _run_shard(exe, ops, env, cwd=None):
    """Returns one JSON text per operation."""
    res = []
    pos = 0
    crashes = 0
    while pos < len(ops):
        data = ("\n".join(ops[pos:]) + "\n").encode()
        p = subprocess.run([exe], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=env, cwd=cwd)
        lines = p.stdout.decode("ascii", "replace").split("\n")
        # (an unfinished last line is dropped: it has no newline)
        done = lines[:-1]
        res += done
        pos += len(done)
        if pos < len(ops):
            if p.returncode == 0:
                raise CheckError("driver stopped early: " + p.stderr.decode(errors="replace")[-2000:])
            if p.returncode == 3:
                raise CheckError("driver refused to run: " + p.stderr.decode(errors="replace")[-2000:])
            err = p.stderr.decode("ascii", "replace")
            m = re.search(r"(AddressSanitizer: [\w-]+|runtime error: [^\n]*|Assertion [^\n]*|terminate called[^\n]*)",
                          err)
            why = m.group(1) if m else ("timeout" if p.returncode == -14 else f"exit {p.returncode}")
            res.append(json.dumps({"op": "crash", "line": ops[pos][:2000], "why": why[:300],
                                   "of": ops[pos].split(" ", 1)[0]}))
            pos += 1
            crashes += 1
            if why == "timeout":
                TIMEOUTS.append(ops[pos - 1][:200])
            if crashes > 20 or len(TIMEOUTS) > 8:   # enough to report
                while pos < len(ops):
                    res.append(json.dumps({"op": "skipped"}))
                    pos += 1
    return res


def drive(exe, ops, env=None, shards=NCPU, cwd=None, heavy=False, timeout=None):
    """Performs the operations; returns a list of JSON texts, one per operation."""
    e = dict(DRV_ENV)
    if timeout:
        e["VF_TIMEOUT"] = str(timeout)
    e.update(env or {})
    n = max(1, min(shards, len(ops) if heavy else len(ops) // 50 + 1))
    parts = [ops[k::n] for k in range(n)]
    with cf.ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(lambda p: _run_shard(exe, p, e, cwd), parts))
    res = [None] * len(ops)
    for k in range(n):
        res[k::n] = outs[k]
    return res


# --- TLC ------------------------------------------------------------------------------
class TlcResult:
    def __init__(self):
        self.ok = False
        self.generated = self.distinct = self.depth = 0
        self.prints = []
        self.out = ""


def tlc(module, cfg=None, env=None, workers=NCPU, timeout=800, heap="6g", extra=(), cwd=SPEC, seed=1):
    md = tempfile.mkdtemp(prefix="tlc-", dir=_tmp())
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LANG": "C"}
    e.update(env or {})
    cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
           f"-Djava.io.tmpdir={md}", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", md, "-fp", "1", "-seed", str(seed)]
    if cfg:
        cmd += ["-config", cfg]
    cmd += list(extra) + [module]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                           timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as t:
        out = (t.stdout or b"").decode("utf-8", "replace")
        rc = -1
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r = TlcResult()
    r.out = out
    r.rc = rc
    r.ok = rc == 0 and "No error has been found" in out
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r.depth = int(m.group(1))
    return r


_tmpdir = None


def _tmp():
    global _tmpdir
    if _tmpdir is None:
        os.makedirs(BUILD, exist_ok=True)
        _tmpdir = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        import atexit
        atexit.register(shutil.rmtree, _tmpdir, True)
    return _tmpdir


def tmp_path(name):
    return os.path.join(_tmp(), name)


_abnf_lock = threading.Lock()
_abnf = None


def abnf():
    """The grammar's automata, as TLC computes them from UriAbnf.tla."""
    global _abnf
    with _abnf_lock:
        if _abnf is None:
            path = tmp_path("abnf.json")
            r = tlc("GenAbnf", env={"ABNF": path}, workers=1, timeout=120)
            if not os.path.exists(path):
                raise CheckError("GenAbnf failed:\n" + r.out[-3000:])
            _abnf = path
        return _abnf


BATCH = 20_000


def judge(module, events, env=None, cfg="Trace.cfg", need_abnf=True, timeout=800):
    """Judges a log of independent events; returns ({index: set of names}, TlcResult)."""
    rejects = {}
    r = None
    for at in range(0, len(events), BATCH):
        rej, r = _judge(module, events[at:at + BATCH], env, cfg, need_abnf, timeout)
        for k, v in rej.items():
            rejects[at + k] = v
        if len(rejects) > 200:   # enough to report
            break
    return rejects, r


def _judge(module, events, env, cfg, need_abnf, timeout):
    rejects = {}
    events = list(events)
    alive = [k for k in range(len(events)) if '"op":"skipped"' not in events[k].replace(" ", "")]
    for _attempt in range(12):
        path = tmp_path(f"trace-{module}-{threading.get_ident()}-{time.monotonic_ns()}.ndjson")
        with open(path, "w") as f:
            for k in alive:
                f.write(events[k])
                f.write("\n")
        e = {"TRACE": path}
        if need_abnf:
            e["ABNF"] = abnf()
        e.update(env or {})
        r = tlc(module, cfg=cfg, env=e, timeout=timeout)
        os.unlink(path)
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*\{([^}]*)\}', r.out):
            rejects[alive[int(m.group(1)) - 1]] = set(re.findall(r'"([^"]*)"', m.group(2)))
        if r.ok:
            return rejects, r
        # TLC could not even evaluate the judgement of some event: a result of a
        # shape which the specification does not know. Report it and go on.
        m = re.search(r"(?:^|\n)(?:/\\ )?i = (\d+)\s*\n", r.out)
        if not m:
            raise CheckError(f"TLC failed on {module}:\n{r.out[-3000:]}")
        bad = int(m.group(1)) - 1
        rejects[alive[bad]] = {"shape"}
        evil = alive[bad]
        last = r
        alive = [k for k in alive if k != evil]
    raise CheckError(f"TLC keeps failing on {module}:\n{last.out[-3000:]}")


# --- known findings -------------------------------------------------------------------
def known_findings(pid):
    """Lines "finding: property=<id> key=<key> <text>" of the committed file."""
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3).strip()
    return r


# --- a check ----------------------------------------------------------------------------
class Check:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.cov = collections.OrderedDict()
        self.cov["states"] = 0
        self.cov["transitions"] = 0
        self.cov["traces_validated_against_impl"] = 0
        self.cov["models"] = {}
        self.cov["samples"] = []
        self.assumptions = []
        self.violations = []
        self.findings = {}
        self.lock = threading.Lock()
        self.distinct = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # model checking of the specification itself
    def model(self, module, cfg=None, env=None, need_abnf=False, timeout=800, workers=4, extra=()):
        e = dict(env or {})
        if need_abnf:
            e["ABNF"] = abnf()
        r = tlc(module, cfg=cfg, env=e, timeout=timeout, workers=workers, extra=extra)
        if not r.ok:
            # The specification is part of the check: it is not the code that failed.
            raise CheckError(f"the model {module} {cfg or ''} does not check:\n{r.out[-4000:]}")
        with self.lock:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            self.cov["models"][cfg.replace(".cfg", "") if cfg else module] = {
                "distinct": r.distinct, "generated": r.generated, "depth": r.depth}
        self.log(f"model {module} {cfg or ''}: {r.distinct} states, {r.generated} transitions")
        return r

    def sample(self, x, limit=6):
        with self.lock:
            if len(self.cov["samples"]) < limit:
                self.cov["samples"].append(x)

    def count(self, key, n=1):
        with self.lock:
            self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, detail, key=None):
        """detail: JSON-able; written to the replay file. key identifies a known finding."""
        kf = known_findings(self.pid)
        if key is not None and key in kf:
            self.findings[key] = kf[key]
            return
        with self.lock:
            self.violations.append((what, detail))

    def judge_ops(self, module, exe, ops, relevant, label, env=None, drv_env=None, need_abnf=True,
                  keyfn=None):
        """Performs the operations, has TLC judge the log, and reports the events which
        contradict the property. relevant: the names that count for this check."""
        ops = list(dict.fromkeys(ops))
        events = drive(exe, ops, env=drv_env)
        more = self.again(exe, ops, events, drv_env)
        return self.judge_events(module, events + [e for _, _, e in more], ops + [f"{ops[k]}  # {how}" for how, k, _ in more],
                                 relevant, label, env, drv_env, need_abnf, keyfn)[:len(ops)]

    def again(self, exe, ops, events, drv_env):
        """The same calls in other circumstances: in another order and the same place, with
        arguments which overlap, by several threads at once, in other locales, with other calls in the
        middle (made by the caller's own iterators, predicates, actions ...), after calls which such code
        made fail. Returns [(circumstance, index, event)] where what was
        recorded is not what it was at first; the specification judges these too."""
        quiet = [k for k in range(len(ops)) if not re.match(r'\{\s*"op"\s*:\s*"(crash|skipped)"', events[k])]
        most = 6000 if self.thorough else 1200
        some = quiet if len(quiet) <= most else sorted(random.Random(f"{self.seed}/{len(ops)}").sample(quiet, most))
        if not some or TIMEOUTS:
            return []
        res = []

        def note(how, ks, evs):
            self.count("calls_again_" + how, len(ks))
            with self.lock:
                res.extend([(how, k, e) for k, e in zip(ks, evs)
                            if e != events[k] and '"skipped"' not in e[:20] and not ended(e)][:50])

        def other(how, ks, env):
            note(how, ks, drive(exe, [ops[k] for k in ks], env={**(drv_env or {}), **env}, shards=1))

        def threads(n=6):
            ks = [k for k in some if len(ops[k]) < 3000][:most // 3]
            e = {**DRV_ENV, **(drv_env or {}), "VF_THREADS": str(n)}
            try:
                p = subprocess.run([exe], input=("\n".join(ops[k] for k in ks) + "\n").encode(), stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, env=e, timeout=120)
            except subprocess.TimeoutExpired:
                return
            if p.returncode == 3 or not ks:
                return
            lines = p.stdout.decode("ascii", "replace").split("\n")[:-1]
            if p.returncode != 0 or len(lines) != n * len(ks):
                err = p.stderr.decode("ascii", "replace")
                m = re.search(r"(AddressSanitizer: [\w-]+|runtime error: [^\n]*|Assertion [^\n]*|terminate called[^\n]*)", err)
                with self.lock:
                    res.append(("threads", ks[0], json.dumps({"op": "crash", "line": "threads", "why": (m.group(1) if m else f"exit {p.returncode}")[:300],
                                                             "of": "threads"})))
                return
            for t in range(n):
                note("threads", ks, lines[t * len(ks):(t + 1) * len(ks)])
        # Neighbours are alike, and their arguments lie in the same place.
        alike = sorted(some, key=lambda k: (ops[k].split(" ")[:2 if ops[k].count(" ") > 1 else 1], len(ops[k]), k), reverse=True)
        same = {"VF_PLACE": "1", "ASAN_OPTIONS": DRV_ENV["ASAN_OPTIONS"] + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"}
        parallel(lambda: other("reordered", alike, same), lambda: other("overlapping", some, {"VF_PLACE": "2"}), threads,
                 lambda: other("nested", some, {"VF_INTRUDE": "1"}), lambda: other("abandoned", some, {"VF_INTRUDE": "2"}),
                 *[lambda n=n, e=e: other(n, some, e) for n, e in locales()])
        return res

    def judge_events(self, module, events, ops, relevant, label, env=None, drv_env=None, need_abnf=True, keyfn=None):
        """Has TLC judge a log (events[k] records operation ops[k])."""
        rejects, r = judge(module, events, env=env, need_abnf=need_abnf)
        n = len(ops)
        self.count("traces_validated_against_impl", n)
        self.count("events_" + label, n)
        for o in ops:
            self.distinct.add(hash(o))
        if ops:
            self.sample({"stage": label, "op": ops[len(ops) // 2][:300],
                         "event": events[len(ops) // 2][:600]})
        self.log(f"{label}: {n} events judged by {module}")
        others = 0
        for k in sorted(rejects):
            names = rejects[k]
            if names & (set(relevant) | {"crash", "shape"}):
                self.violation(f"{label}: {sorted(names)}",
                               {"module": module, "op": ops[k], "event": json.loads(events[k]),
                                "names": sorted(names), "env": drv_env or {}},
                               key=keyfn(json.loads(events[k])) if keyfn else None)
            else:
                others += 1
        if others:
            self.count("events_contradicting_other_properties", others)
        return events

    def finish(self):
        self.cov["distinct_operations"] = len(self.distinct)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for k, v in sorted(self.findings.items()):
            print(f"KNOWN-FINDING: property={self.pid} {v}")
        if self.violations:
            os.makedirs(OUT, exist_ok=True)
            path = os.path.join(OUT, f"{self.pid}.replay.json")
            with open(path, "w") as f:
                json.dump([{"what": w, "detail": d} for w, d in self.violations[:50]], f, indent=1,
                          default=str)
                f.write("\n")
            for w, d in self.violations[:3]:
                print(f"  {w}: {json.dumps(d, default=str)[:900]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        self.log(f"held on everything explored ({self.cov['traces_validated_against_impl']} traces)")
        return 0


def parallel(*thunks):
    """Runs the functions concurrently; the first exception is raised once all ended."""
    with cf.ThreadPoolExecutor(len(thunks)) as ex:
        futs = [ex.submit(t) for t in thunks]
        cf.wait(futs)
        return [f.result() for f in futs]


# --- locales -----------------------------------------------------------------------------
_locales = None
_locales_lock = threading.Lock()


def locales():
    """[(name, environment)]: locales in which bytes above 127 are letters, made here.
    Empty where localedef cannot make them."""
    with _locales_lock:
        return _make_locales()


def _make_locales():
    global _locales
    if _locales is None:
        made = []
        d = os.path.join(_tmp(), "locales")
        os.makedirs(d, exist_ok=True)
        for name, inp, charmap in (("vf_latin1", "en_US", "ISO-8859-1"), ("vf_turkish", "tr_TR", "ISO-8859-9")):
            try:
                subprocess.run(["localedef", "-i", inp, "-f", charmap, os.path.join(d, name)], stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=60)
            except (OSError, subprocess.TimeoutExpired):
                continue
            if os.path.isdir(os.path.join(d, name)):
                made.append((name, {"LOCPATH": d, "VF_LOCALE": name}))
        _locales = made
    return _locales


class Collector(Check):
    """Stands in for a check whose operations are wanted, not its verdict."""

    def __init__(self, check, pid):
        super().__init__(f"{check.pid}/{pid}", check.level)
        self.tier, self.seed = "quick", check.seed
        self.got = []

    def model(self, *a, **kw):
        pass

    def judge_ops(self, module, exe, ops, relevant, label, env=None, drv_env=None, need_abnf=True, keyfn=None):
        self.got.append((module, list(dict.fromkeys(ops))))


# --- coverage-guided generation -----------------------------------------------------------
def fz_field(b):
    out = bytearray()
    for c in b:
        if c in (0xFC, 0xFD):
            out.append(0xFC)
        out.append(c)
    out.append(0xFD)
    return bytes(out)


def fz_parts(scheme=None, auth=None, abs_=False, segs=(), query=None, fragment=None):
    u, h, p = auth if auth is not None else (None, None, None)
    f = ((scheme is not None) | (auth is not None) << 1 | (u is not None) << 2 | (p is not None) << 3
         | bool(abs_) << 4 | (query is not None) << 5 | (fragment is not None) << 6)
    out = bytes([f])
    if scheme is not None:
        out += fz_field(scheme)
    if auth is not None:
        if u is not None:
            out += fz_field(u)
        out += fz_field(h)
        if p is not None:
            out += fz_field(p)
    segs = list(segs)[:39]
    out += bytes([len(segs)])
    for s in segs:
        out += fz_field(s)
    if query is not None:
        out += fz_field(query)
    if fragment is not None:
        out += fz_field(fragment)
    return out


COLLECTING = False


def fuzz_build(name, sources, libs):
    if COLLECTING:
        return None
    try:
        return build(name, sources, libs, flags=FUZZ, cxx="clang++")
    except CheckError as e:   # (a tree which the other compiler does not take: the corpora of the drivers remain)
        print(f"note: no fuzzing: {e}", file=sys.stderr)
        return None


def fuzz(check, exe, label, seeds, env=None, seconds=8, procs=4, max_len=300, cap=4000):
    """Runs the fuzzer and returns the operation lines of the inputs it kept."""
    if isinstance(check, Collector) or exe is None:
        return []
    base = os.path.join(_tmp(), f"fuzz-{label}-{threading.get_ident()}")
    os.makedirs(base, exist_ok=True)
    e = dict(DRV_ENV)
    e.update(env or {})

    def one(k):
        corpus = os.path.join(base, f"c{k}")
        art = os.path.join(base, f"a{k}-")
        os.makedirs(corpus)
        for j, s in enumerate(seeds):
            with open(os.path.join(corpus, f"s{j}"), "wb") as f:
                f.write(s)
        cmd = [exe, corpus, f"-seed={check.seed * 101 + k + 1}", f"-max_total_time={seconds}",
               f"-max_len={max_len}", "-use_value_profile=1" if k % 2 == 0 else "-use_value_profile=0",
               "-print_final_stats=1", f"-artifact_prefix={art}", "-timeout=20", "-rss_limit_mb=3000",
               "-len_control=20", "-reload=0"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=base,
                           timeout=seconds + 200)
        m = re.search(r"number_of_executed_units: (\d+)", p.stdout.decode(errors="replace"))
        return int(m.group(1)) if m else 0

    with cf.ThreadPoolExecutor(procs) as ex:
        runs = sum(ex.map(one, range(procs)))
    files = []
    arts = []
    for n in sorted(os.listdir(base)):
        p = os.path.join(base, n)
        if os.path.isdir(p):
            files += [os.path.join(p, x) for x in sorted(os.listdir(p))]
        elif re.match(r"a\d+-(crash|timeout|oom)", n):
            arts.append(p)
    seen = set()
    uniq = []
    for f in arts + files:
        with open(f, "rb") as fh:
            b = fh.read()
        if b not in seen:
            seen.add(b)
            uniq.append(f)
    if len(uniq) > cap:   # keep the artifacts and an even sample
        keep = uniq[:len(arts)]
        rest = uniq[len(arts):]
        step = len(rest) / (cap - len(keep))
        uniq = keep + [rest[int(j * step)] for j in range(cap - len(keep))]
    lines_file = os.path.join(base, "lines")
    e["VF_PRINT"] = lines_file
    for k in range(0, len(uniq), 400):
        subprocess.run([exe] + uniq[k:k + 400], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e,
                       cwd=base, timeout=300)
    lines = []
    if os.path.exists(lines_file):
        with open(lines_file) as f:
            lines = list(dict.fromkeys(x.rstrip("\n") for x in f))
    shutil.rmtree(base, ignore_errors=True)
    check.count("fuzz_executions", runs)
    check.count("fuzz_inputs_kept", len(lines))
    check.log(f"fuzz {label}: {runs} executions, kept {len(lines)} operations")
    return lines


def behaviours(module, cfg, tag, num, depth, seed, env=None, timeout=300):
    """Behaviours of a specification, drawn by TLC's simulator: what it prints as <<tag, text>>."""
    r = tlc(module, cfg=cfg, env=env, timeout=timeout, workers=4, seed=seed,
            extra=["-simulate", f"num={num}", "-depth", str(depth)])
    out = re.findall(r'<<"' + tag + r'", "((?:[^"\\]|\\.)*)">>', r.out)
    if not out or "Error:" in r.out:
        raise CheckError(f"{module} {cfg}: no behaviours:\n{r.out[-3000:]}")
    return [x.replace('\\"', '"') for x in dict.fromkeys(out)]
