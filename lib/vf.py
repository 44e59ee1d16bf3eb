"""Framework of the checks: drivers, scratch space, case search with hypothesis, replay, evidence."""
import atexit, hashlib, json, multiprocessing, os, re, select, shutil, signal, subprocess, sys, tempfile, time, traceback
from collections import Counter
sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OUT = os.environ.get("VERIF_OUT", VERIF)           # evidence/ and replays/ go here
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
SITE = "/opt/vp/venv/lib/python3.12/site-packages"
WHEEL = ":".join([SITE + "/eckitlib/lib64", SITE + "/metkitlib/lib64", SITE + "/eccodeslib/lib64", SITE + "/eckitlib.libs"])
NPROC = int(os.environ.get("VERIF_JOBS", "8"))

class Violation(Exception):
    def __init__(self, msg, sig=None, **info):
        super().__init__(msg); self.msg = msg; self.sig = sig; self.info = info
class HarnessError(Exception): pass
class Skip(Exception):
    """The case is outside the domain (counted, not evaluated)."""

def say(*a): print(*a, flush=True)
def log(*a): print(*a, file=sys.stderr, flush=True)

def build(kind, *targets):
    t = time.time()
    r = subprocess.run([os.path.join(VERIF, "lib/build.sh"), kind, *targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        log(r.stdout); log("BUILD FAILED"); sys.exit(3)
    return time.time() - t

# ---------------------------------------------------------------- scratch
_base = None
def scratch_base():
    global _base
    if _base is None or _base[1] != os.getpid():
        root = "/tmp"
        try:
            st = os.statvfs("/dev/shm")
            if st.f_bavail * st.f_frsize > 3 << 30 and os.access("/dev/shm", os.W_OK): root = "/dev/shm"
        except OSError: pass
        d = os.path.realpath(tempfile.mkdtemp(prefix="vfdb-", dir=root))
        _base = (d, os.getpid()); atexit.register(_rm, d, os.getpid())
    return _base[0]
def _rm(d, pid):
    if os.getpid() == pid and os.path.basename(d).startswith("vfdb-"): shutil.rmtree(d, ignore_errors=True)
_n = 0
class Scratch:
    """A fresh directory, removed at exit of the with block."""
    def __enter__(self):
        global _n; _n += 1; renew_pool()
        self.d = os.path.join(scratch_base(), "c%d" % _n); os.makedirs(self.d); return self
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
    def path(self, *p):
        return os.path.join(self.d, *p)
    def mkdir(self, *p):
        q = self.path(*p); os.makedirs(q, exist_ok=True); return q
    def write(self, name, text):
        q = self.path(name); os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "w") as f: f.write(text)
        return q

def tree(d, content=True):
    """{relative path: (kind, size, md5)} of a directory tree."""
    r = {}
    for dp, dn, fn in os.walk(d):
        for n in dn: r[os.path.relpath(os.path.join(dp, n), d) + "/"] = ("d",)
        for n in fn:
            p = os.path.join(dp, n)
            try:
                if os.path.islink(p): r[os.path.relpath(p, d)] = ("l", os.readlink(p)); continue
                b = open(p, "rb").read() if content else b""
                r[os.path.relpath(p, d)] = ("f", os.stat(p).st_size, hashlib.md5(b).hexdigest())
            except FileNotFoundError: pass
    return r
def treediff(a, b):
    return sorted([("-", k) for k in a if k not in b] + [("+", k) for k in b if k not in a] + [("~", k) for k in a if k in b and a[k] != b[k]])

# ---------------------------------------------------------------- driver
def base_env(**extra):
    home = os.path.join(scratch_base(), "home"); os.makedirs(home, exist_ok=True)
    e = {"PATH": "/usr/bin:/bin", "HOME": home, "FDB_HOME": home, "LANG": "C", "OMP_NUM_THREADS": "1",
         "ECKIT_EXCEPTION_IS_SILENT": "1", "ECKIT_ASSERT_FAILED_IS_SILENT": "1", "TMPDIR": home,
         "LD_LIBRARY_PATH": os.path.join(BUILD, "plain", "lib") + ":" + WHEEL}
    e.update({k: str(v) for k, v in extra.items()}); return e

class DriverDied(Exception): pass

class Driver:
    def __init__(self, env=None, kind="plain", timeout=120, preload=None, prog=None, exe="vdriver"):
        e = base_env(**(env or {}))
        if kind != "plain":
            e["LD_LIBRARY_PATH"] = os.path.join(BUILD, kind, "lib") + ":" + WHEEL
            e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=77:detect_container_overflow=0:allocator_may_return_null=1:handle_abort=1:hard_rss_limit_mb=4000")
            e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:exitcode=78")
        if preload: e["LD_PRELOAD"] = preload
        self.timeout = timeout
        self.errpath = tempfile.mkstemp(prefix="err", dir=scratch_base())[1]
        self.err = open(self.errpath, "wb")
        self.p = subprocess.Popen(prog or [os.path.join(BUILD, kind, "bin", exe)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=e, cwd=scratch_base(), start_new_session=True)
        self.fd = self.p.stdout.fileno(); self.buf = b""; self.calls = 0
    def send(self, cmd):
        self.calls += 1
        try:
            self.p.stdin.write(json.dumps(cmd).encode() + b"\n"); self.p.stdin.flush()
        except (BrokenPipeError, OSError): self.dead("pipe broken")
    def recv(self, timeout=None):
        end = time.time() + (timeout or self.timeout)
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.fd], [], [], left)[0]:
                self.kill(); raise DriverDied("timeout: no answer in %ss" % (timeout or self.timeout))
            b = os.read(self.fd, 1 << 20)
            if not b: self.dead("exited")
            self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)
    def dead(self, why):
        try: self.p.wait(20)
        except subprocess.TimeoutExpired: self.kill()
        raise DriverDied("driver died: %s, status %s\n%s" % (why, self.p.returncode, self.errtail(20000)))
    def errtail(self, n=3000):
        self.err.flush()
        try: return open(self.errpath, "rb").read()[-n:].decode("latin-1")
        except OSError: return ""
    def raw(self, op, **kw):
        kw["op"] = op; self.send(kw); return self.recv()
    def ok(self, op, **kw):
        """The operation must succeed."""
        r = self.raw(op, **kw)
        if not r.get("ok"):
            if r.get("err") == "driver" or str(r.get("what", "")).startswith("driver:"): raise HarnessError("%s: %s" % (op, r))
            raise Violation("operation %s failed: %s: %s" % (op, r.get("err"), r.get("what")), op=op)
        return r
    def kill(self, sig=signal.SIGKILL):
        try: os.killpg(self.p.pid, sig)
        except (ProcessLookupError, PermissionError): pass
        try: self.p.wait(20)
        except subprocess.TimeoutExpired: pass
    def alive(self): return self.p.poll() is None
    def close(self):
        if self.alive():
            try: self.send({"op": "_exit"})
            except DriverDied: pass
            try: self.p.wait(5)
            except subprocess.TimeoutExpired: pass
        self.kill()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try: f.close()
            except OSError: pass
        try: os.unlink(self.errpath)
        except OSError: pass

_pool = {}
def driver(env=None, kind="plain", slot=0, **kw):
    """A pooled driver for this environment, reused over cases and renewed regularly."""
    key = (json.dumps(env or {}, sort_keys=True), kind, slot, kw.get("exe", "vdriver"))
    d = _pool.get(key)
    if d is None:
        d = _pool[key] = Driver(env, kind, **kw)
    return d
def renew_pool():
    """Between cases: forget dead or long-used drivers, and all of them when there are many."""
    many = len(_pool) > 12
    for k in list(_pool):
        if many or not _pool[k].alive() or _pool[k].calls > 3000: _pool.pop(k).close()
def close_pool():
    for k in list(_pool): _pool.pop(k).close()

# ---------------------------------------------------------------- payloads
import numpy as _np
def fill(id, n):
    i = _np.arange(n, dtype=_np.uint64)
    b = ((id * 131 + i * (2 * id + 1) + (i >> _np.uint64(8)) * _np.uint64(7) + (i >> _np.uint64(16))) & _np.uint64(0xff)).astype(_np.uint8) if n else _np.zeros(0, _np.uint8)
    h = ("<%x:%x>" % (id, n)).encode()[:n]
    r = bytearray(b.tobytes()); r[:len(h)] = h
    return bytes(r)
def rbytes(rep):
    """bytes of a {len, md5, hex?} reply, or None if too long to be included."""
    return bytes.fromhex(rep["hex"]) if "hex" in rep else None
def same(rep, data):
    return rep["len"] == len(data) and rep["md5"] == hashlib.md5(data).hexdigest()
def segments(blob, parts):
    """Is blob a concatenation of exactly the multiset parts (in some order)?  Backtracking."""
    parts = sorted(parts, key=len, reverse=True)
    if len(blob) != sum(map(len, parts)): return False
    left = Counter(parts); zero = b"" in left
    if zero: del left[b""]
    dead = set()
    def go(pos):
        if pos == len(blob): return True
        key = (pos, tuple(sorted((p[:24], len(p), n) for p, n in left.items() if n)))
        if key in dead: return False
        for p in list(left):
            if left[p] and blob.startswith(p, pos):
                left[p] -= 1
                if go(pos + len(p)): return True
                left[p] += 1
        dead.add(key); return False
    return go(0)

# ---------------------------------------------------------------- known findings
def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]

# ---------------------------------------------------------------- search
def _fresh(fn, case):
    """Run a case with fresh drivers; returns (violation message, sig) or None."""
    close_pool()
    try:
        fn(case); return None
    except Violation as v: return (v.msg, v.sig)
    except DriverDied as v: return (str(v), "driver-died")
    except Skip: return None
    finally: close_pool()

def _worker(args):
    check, k, n, seed, limit, shrink_s = args
    import hypothesis, hypothesis.strategies as st
    from hypothesis import settings, HealthCheck, Phase
    t0 = time.time()
    res = {"evaluations": 0, "skipped": 0, "nontrivial": [], "labels": Counter(), "samples": [], "failures": [], "known": Counter(), "harness": None, "unfinished": 0}
    nontriv = set(); state = {"first": None}
    knownsigs = {f["sig"]: f["id"] for f in known(check.prop)}
    def body(case):
        now = time.time()
        if state["first"] is None and now - t0 > limit: res["unfinished"] += 1; return
        if state["first"] is not None and now - state["first"] > shrink_s: return
        try:
            lab = check.run(case)
        except Skip: res["skipped"] += 1; return
        except (Violation, DriverDied) as v:
            sig = getattr(v, "sig", "driver-died")
            if sig in knownsigs: res["known"][knownsigs[sig]] += 1; lab = getattr(v, "info", {}).get("lab", {})
            else:
                close_pool()
                if state["first"] is None: state["first"] = now
                res["failures"].append((json.dumps(case), str(v), sig))
                res["failures"].sort(key=lambda x: len(x[0])); del res["failures"][3:]
                raise
        res["evaluations"] += 1
        lab = lab or {}
        for l in lab.get("labels", ()): res["labels"][l] += 1
        if lab.get("nontrivial"):
            j = json.dumps(case, sort_keys=True)
            h = hashlib.md5(j.encode()).hexdigest()
            if h not in nontriv:
                nontriv.add(h)
                if len(res["samples"]) < 2 and len(j) < 4000: res["samples"].append(lab.get("sample", case))
    try:
        f = hypothesis.given(check.strategy())(body)
        f = settings(max_examples=n, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
                     suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])(f)
        f = hypothesis.seed(seed)(f)
        f()
    except (HarnessError,) as e: res["harness"] = traceback.format_exc()
    except BaseException as e:
        if not res["failures"]: res["harness"] = traceback.format_exc()
    finally: close_pool()
    res["nontrivial"] = list(nontriv)
    return res

class Check:
    """Subclass: prop, rule, level, quick (cases), thorough (cases), strategy(), run(case)."""
    prop = "C00"; level = "exploration"; rule = ""; quick = 400; thorough = 8000; targets = ("vdriver",); kinds = ("plain",)
    deterministic = True; quick_limit = 260; thorough_limit = 3000; shrink_s = 90; assumptions = []; jobs = NPROC; min_cases = 10
    def prepare(self): pass
    def strategy(self): raise NotImplementedError
    def run(self, case): raise NotImplementedError
    def extra(self): """Deterministic extra cases (dicts) run before the search.""" ; return []

def main(check):
    t0 = time.time()
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("--replay"); ap.add_argument("-n", type=int); ap.add_argument("--nobuild", action="store_true")
    a = ap.parse_args()
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch_base(), "hyp")
    if not a.nobuild:
        for k in check.kinds: build(k, *[t for t in check.targets if k == "plain" or not t.endswith("_bindings")])
    tb = time.time() - t0
    check.prepare()
    if a.replay:
        case = json.load(open(a.replay))["case"]
        r = _fresh(check.run, case)
        say("replay: " + ("VIOLATION reproduced: %s" % r[0] if r else "no violation")); sys.exit(1 if r else 0)
    quick = TIER != "thorough"
    n = a.n or (check.quick if quick else check.thorough)
    limit = check.quick_limit if quick else check.thorough_limit
    findings = []; ev = 0; labels = Counter(); samples = []; nontriv = set(); skipped = 0; unfinished = 0; knownc = Counter(); fails = []
    kf = known(check.prop); knownsigs = {f["sig"]: f["id"] for f in kf}
    for f in kf:
        r = _fresh(check.run, f["case"]) if "case" in f else None
        ev += 1
        if r and r[1] == f["sig"]: findings.append(f)
        elif r: fails.append((json.dumps(f["case"]), r[0], r[1]))
    for case in check.extra():
        ev += 1
        try:
            r = check.run(case) or {}
            for l in r.get("labels", ()): labels[l] += 1
            if r.get("nontrivial"): nontriv.add(hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest())
        except Skip: skipped += 1
        except (Violation, DriverDied) as v:
            sig = getattr(v, "sig", "driver-died"); close_pool()
            if sig in knownsigs: knownc[knownsigs[sig]] += 1
            else: fails.append((json.dumps(case), str(v), sig)); break
    close_pool()
    jobs = max(1, min(check.jobs, n))
    harness = None
    if not fails:
        args = [(check, k, (n + jobs - 1) // jobs, SEED * 1000003 + k, limit, check.shrink_s) for k in range(jobs)]
        if jobs == 1: results = [_worker(args[0])]
        else:
            with multiprocessing.get_context("fork").Pool(jobs) as pool: results = pool.map(_worker_clean, args, chunksize=1)
        for r in results:
            ev += r["evaluations"]; labels.update(r["labels"]); nontriv.update(r["nontrivial"]); skipped += r["skipped"]; unfinished += r["unfinished"]
            knownc.update(r["known"]); fails += r["failures"]
            if len(samples) < 4: samples += r["samples"][:1]
            if r["harness"]: harness = r["harness"]
    nviol = 0; replay = None; flaky = []
    fails.sort(key=lambda x: len(x[0]))
    for j, msg, sig in fails[:4]:
        case = json.loads(j)
        tries = 3 if check.deterministic else 25
        got = []
        for _ in range(tries):
            try: got.append(_fresh(check.run, case))
            except HarnessError: harness = traceback.format_exc(); got.append(None)
            if not check.deterministic and got[-1]: break
        hit = [g for g in got if g and g[1] not in knownsigs]
        if (check.deterministic and len(hit) == tries) or (not check.deterministic and hit):
            nviol = 1
            d = os.path.join(OUT, "replays"); os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, "%s-%s.json" % (check.prop, hashlib.md5(j.encode()).hexdigest()[:10]))
            json.dump({"property": check.prop, "case": case, "message": hit[0][0], "replay_cmd": "python3-vt checks/%s.py --replay %s" % (check.prop.lower(), replay)}, open(replay, "w"), indent=1)
            say("violation: " + hit[0][0][:3000]); say("case: " + j[:3000]); break
        flaky.append(msg[:400])
        log("not reproduced (%d/%d): %s\n%s" % (len(hit), tries, msg[:1500], j[:1500]))
    evd = {"property": check.prop, "tier": "quick" if quick else "thorough", "seed": SEED, "level": check.level,
           "coverage": {"evaluations": ev, "distinct_nontrivial": len(nontriv), "rule": check.rule, "samples": samples or ["(none: a violation ended the search first)"],
                        "classes": dict(labels.most_common(60)), "outside_domain": skipped, "not_run_for_time": unfinished,
                        "known_findings_met": dict(knownc), "not_reproduced": flaky, "build_s": round(tb, 1)},
           "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 1), "violations": nviol}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(OUT, "evidence", check.prop + ".json"), "w"), indent=1)
    for f in findings: say("KNOWN-FINDING: property=%s %s" % (check.prop, f["what"]))
    log("%s: %d cases, %d distinct non-trivial, %d skipped, %d unfinished, %.1fs (build %.1fs)" % (check.prop, ev, len(nontriv), skipped, unfinished, time.time() - t0, tb))
    log(json.dumps(dict(labels.most_common(40))))
    if nviol:
        say("VIOLATION property=%s replay=%s" % (check.prop, replay)); sys.exit(1)
    if harness: log("HARNESS ERROR\n" + harness); sys.exit(4)
    if ev < check.min_cases: log("too few cases"); sys.exit(5)
    sys.exit(0)

def _worker_clean(a):
    global _base, _pool
    _base = None; _pool = {}
    try: return _worker(a)
    finally:
        close_pool()
        if _base: _rm(_base[0], os.getpid())
