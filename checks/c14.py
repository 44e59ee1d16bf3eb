import sys, os, itertools; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
FI = [i for i, f in enumerate(FAMS) if f.name != "odd"]      # compact text has no quoting: values without , = /
@st.composite
def cases(draw):
    fi = draw(st.sampled_from(FI + [2, 2, 2])); fam = FAMS[fi]; pool = draw(pools(fam, 1, 16, (2, 2, 1, 0))); ix = st.integers(0, len(pool) - 1)
    if draw(st.booleans()):     # a population that is nearly a product: all combinations of a first identifier's alternatives, less some
        b = pool[0]; br = fam.branches[b[0]]; vary = draw(st.lists(st.sampled_from([j for j, k in enumerate(br) if k[0] == 2 and len(k[3]) > 1 or k[2]] or [len(br) - 1]), min_size=1, max_size=3, unique=True))
        dom = [list(range(-1 if k[2] and j % 2 else 0, len(k[3]))) if j in vary else [b[1 + j]] for j, k in enumerate(br)]
        allk = [[b[0], *t] for t in itertools.islice(itertools.product(*dom), 24)]; drop = draw(st.lists(st.integers(0, len(allk) - 1), max_size=2)); pool = [k for j, k in enumerate(allk) if j not in drop] + pool[1:3] or pool
        ix = st.integers(0, len(pool) - 1); first = [["a", 0, j, 10 + j] for j in draw(st.permutations(range(len(pool))))]
    else: first = []
    op = st.one_of(*[st.tuples(st.just("a"), st.integers(0, 1), ix, SIZES)] * 5, st.tuples(st.just("f"), st.integers(0, 1)), st.tuples(st.just("c"), st.integers(0, 1)))
    return {"fam": fi, "opt": draw(st.integers(0, 4)), "pool": pool, "ops": first + [list(o) for o in draw(st.lists(op, min_size=2, max_size=18))], "reqs": draw(st.lists(sub_requests(fam), max_size=3)), "tool": draw(st.sampled_from([0, 0, 0, 1]))}
def expand(line):
    ks = [p.split("=", 1) for p in line.replace("}", ",").replace("{", "").strip().strip(",").split(",") if p]
    for p in ks:
        if len(p) != 2: raise Violation("compact line %s cannot be read as keywords and values" % line)
    return [ident(dict(zip([k for k, _ in ks], t))) for t in itertools.product(*[v.split("/") for _, v in ks])]
def lines(text): return [l for l in text.split("\n") if l.strip()]
class C14(Check):
    prop = "C14"; quick = 1500; thorough = 80000; targets = ("vdriver", "fdb-list")
    rule = ("cases: regular, nearly regular and irregular populations listed in compact form (through the interface and by fdb-list) with partial requests, expanded and compared with the plain listing; the printed and JSON forms of listed elements are read back too; "
            "non-trivial: some compact line stands for several fields")
    def strategy(self): return cases()
    def compact(self, text, ded, n, size, what):
        got = Counter(i for l in lines(text) for i in expand(l)); want = Counter(elem_ident(e) for e in ded)
        if got != want: raise Violation("%s: the compact listing names %s, which are not listed (or twice), and lacks %s:\n%s" % (what, show(list((got - want).elements())), show(list((want - got).elements())), show(text, 2000)))
        if n is not None and (n, size) != (len(ded), sum(e["len"] for e in ded)): raise Violation("%s: the compact listing reports %s fields of %s bytes, the listing has %d of %d" % (what, n, size, len(ded), sum(e["len"] for e in ded)))
        return any(len(expand(l)) > 1 for l in lines(text))
    def run(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; nt = False; labels = set()
        with Scratch() as sc:
            w = World(sc, fam, user, env)
            try:
                for op in c["ops"]: step(w, c, op)
                for x in list(w.w): w.flush(x)
                for last in (False, True):
                    if last: w.closeall()
                    d, h = w.reader()
                    for req in [{}] + c["reqs"]:
                        ded = listing(d, h, req, "dedup"); a = dict(h=h, req=req)
                        want = {i for i in w.m.visible() if selected(i, req)}
                        if {elem_ident(e) for e in ded} != want: raise Violation("listing of %s: %s, expected %s" % (req, [elem_ident(e) for e in ded], want))
                        if not req: a["all"] = True
                        for mode in ("full", "dedup"):
                            x = d.ok("compact", mode=mode, **a); m = self.compact(x["text"], ded, x["n"], x["size"], "%s listing of %s" % (mode, req)); nt = nt or m
                            if len(lines(x["text"])) < len({elem_levels(e)[:2] for e in ded}): raise Violation("fewer compact lines than indexes")
                        for flags in range(8):
                            f = {"location": bool(flags & 1), "length": bool(flags & 2), "timestamp": bool(flags & 4)}
                            if flags in (0, 7) or flags == len(c["ops"]) % 8:
                                es = d.ok("listprint", mode="dedup", sep="|", **f, **a)["elems"]
                                if Counter(elem_ident(e["e"]) for e in es) != Counter(map(elem_ident, ded)): raise Violation("listing twice differs")
                                for e in es:
                                    t = e["text"].split("|"); e0 = e["e"]; k = "".join("{" + ",".join("%s=%s" % tuple(p) for p in lv if p[1] != "") + "}" for lv in e0["keys"])
                                    if t[0].replace(",", "") != k.replace(",", "") and ident(dict(p.split("=", 1) for q in t[0].strip("{}").split("}{") for p in q.split(",") if p)) != elem_ident(e0): raise Violation("element printed as %s, is %s" % (e["text"], e0))
                                    if f["length"] and "length=%d" % e0["len"] not in t: raise Violation("element printed as %s, length is %d" % (e["text"], e0["len"]))
                                    if f["timestamp"] and "timestamp=%d" % e0["ts"] not in t: raise Violation("element printed as %s, timestamp is %d" % (e["text"], e0["ts"]))
                                    if f["location"] and e0["path"] not in e["text"]: raise Violation("element printed as %s, location is %s" % (e["text"], e0["path"]))
                                    if ident(json.loads(e["json"])) != elem_ident(e0): raise Violation("element in JSON %s, is %s" % (e["json"], e0["keys"]))
                    w.done(d, h)
                if c["tool"]:
                    labels.add("tool"); cf = sc.write("cfg.yaml", w.cfg)
                    def run(*args):
                        for _ in range(3):
                            p = subprocess.run([os.path.join(BUILD, "plain", "bin", "fdb-list"), "--minimum-keys=", "--all", *args], env=base_env(FDB5_CONFIG_FILE=cf, **env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
                            if p.returncode >= 0: break
                        if p.returncode: raise Violation("fdb-list %s fails: %s" % (args, (p.stdout + p.stderr)[-800:]))
                        return p.stdout
                    d, h = w.reader(); ded = listing(d, h, None, "dedup"); full = listing(d, h, None, "full")
                    t = run("--compact", "--porcelain"); self.compact(t, ded, None, None, "fdb-list --compact")
                    t = run("--compact"); m = re.search(r"Entries\s*: ([\d,]+)\s*\nTotal\s*: ([\d,]+)", t)
                    if not m or [int(q.replace(",", "")) for q in m.groups()] != [len(ded), sum(e["len"] for e in ded)]: raise Violation("fdb-list --compact ends with %s, the listing has %d fields of %d bytes" % (t[-200:], len(ded), sum(e["len"] for e in ded)))
                    j = json.loads(run("--json"))
                    if Counter(map(ident, j)) != Counter(map(elem_ident, ded)): raise Violation("fdb-list --json: %s" % show(j))
                    pr = lambda mode: Counter(e["text"] for e in d.ok("listprint", h=h, all=True, req={}, mode=mode, sep=", ", length=True, location=True)["elems"])
                    for mode, args in (("dedup", ()), ("full", ("--full",)), ("dups", ("--only-duplicates",))):
                        t = Counter(lines(run("--porcelain", "--length", "--location", *args)))
                        if t != pr(mode): raise Violation("fdb-list %s prints %s, the %s listing is %s" % (args, show(t), mode, show(pr(mode))))
                    for dep in (1, 2):
                        t = lines(run("--porcelain", "--depth=%d" % dep)); want = {elem_levels(e)[:dep] for e in ded}
                        if len(t) != len(want): raise Violation("fdb-list --depth=%d prints %s" % (dep, t))
                    w.done(d, h)
            finally: w.cleanup()
        return {"labels": [fam.name, on] + sorted(labels), "nontrivial": nt}
if __name__ == "__main__": main(C14())
