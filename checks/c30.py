import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
import random
from c11 import tool
ENV = [{}, {}, {"FDB_SEEKABLE_DATA_HANDLE": "1"}, {"FDB_DEDUPLICATE_FIELDS": "1"}]
API = ["list", "list", "listprint", "compact", "inspect", "retrieve", "retrieve", "read", "axes", "axesit", "stats", "status", "dump", "purge", "purge", "wipe", "wipe", "wipe", "enabled"]
TOOL = ["fdb-list", "fdb-list", "fdb-stats", "fdb-status", "fdb-axes", "fdb-purge", "fdb-purge", "fdb-wipe", "fdb-wipe", "fdb-wipe", "fdb-where", "fdb-dump", "fdb-dump-toc", "fdb-dump-index", "fdb-info", "fdb-schema", "fdb-root", "fdb-root", "fdb-hide", "fdb-hide", "fdb-inspect", "fdb-read", "fdb-read", "fdb-compare", "fdb-move"]
MESS = ["foreign", "dir", "link", "emptydb", "emptytoc", "notoc", "lock", "unlock"]
@st.composite
def cases(draw):
    c = draw(histories(14, mop=("a", "a", "a", "f", "c")))
    fam = FAMS[c["fam"]]; ix = st.integers(0, len(c["pool"]) - 1); seed = st.integers(0, 2 ** 32)
    c["mess"] = draw(st.lists(st.tuples(st.sampled_from(MESS), ix).map(list), max_size=4)); c["left"] = draw(st.integers(0, 3)); c["two"] = draw(st.booleans())
    q = st.one_of(sub_requests(fam), ix, ix, st.just(None))
    c["qs"] = [list(o) for o in draw(st.lists(st.tuples(st.one_of(st.sampled_from(API), st.sampled_from(API), st.sampled_from(TOOL)), q, seed), min_size=3, max_size=14))]; c["env"] = draw(st.integers(0, 3)); return c
def snapshot(roots):
    r = {}
    for root in roots:
        for dp, dn, fn in os.walk(root):
            for n in dn + fn + ["."]:
                p = os.path.normpath(os.path.join(dp, n)); s = os.lstat(p); r[p] = (s.st_mode, s.st_size, s.st_mtime_ns, s.st_ctime_ns, s.st_ino, hashlib.md5(open(p, "rb").read()).hexdigest() if n in fn and not os.path.islink(p) else None)
    return r
class C30(Check):
    prop = "C30"; quick = 1500; thorough = 30000; targets = ("vdriver", "vtools")
    rule = ("cases: histories whose writers are closed, still open or killed, with locks, foreign files, links, empty and incomplete databases and a root that does not exist; then queries and unconfirmed operations by interface and tools with all their options, "
            "each followed by a comparison of every inode, mode, time and content under the roots; non-trivial: three or more queries of which one is a dry run or meets such a population")
    def strategy(self): return cases()
    def run(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; labels = {fam.name, on}; dry = False
        with Scratch() as sc:
            w = World(sc, fam, user, env, nroots=2 if c["two"] else 1); top = sc.mkdir("spare"); missing = sc.path("missing"); dest = sc.mkdir("dest")
            w.cfg = json.dumps({"type": "local", "engine": "toc", "schema": w.schema, "spaces": [{"handler": "Default", "roots": [{"path": r, "wipe": True} for r in w.roots] + [{"path": missing}, {"path": dest, "writable": False, "wipe": True}]}]})
            cf = sc.write("cfg.yaml", w.cfg); out = sc.mkdir("outside"); sc.write("outside/precious", "p")
            try:
                for op in c["ops"]: step(w, c, op)
                left = c["left"]
                if left == 0: w.closeall()
                elif left == 1:
                    for x in list(w.w): w.flush(x)
                elif left == 3:      # the writers die
                    for x in list(w.w): w.drv(w.w[x]["slot"]).kill()
                    renew_pool(); w.w = {}
                root = w.roots[0]
                for kind, j in c["mess"]:
                    n = dbname(fam, c["pool"][j]); p = os.path.join(root, n); k = levels_of(fam, c["pool"][j])[0]
                    if kind in ("lock", "unlock"):
                        if os.path.exists(os.path.join(p, "toc")):
                            d, h = w.reader(1); d.raw("control", h=h, req={x: [y] for x, y in k.items()}, action="disable" if kind == "lock" else "enable", ids=["list", "retrieve", "archive", "wipe"][j % 4:]); w.done(d, h)
                    elif kind in ("emptydb", "emptytoc"):
                        p = os.path.join(root, n.replace(":", "7:") if j % 2 else n + "x") if os.path.exists(p) else p
                        os.makedirs(p, exist_ok=True)
                        if kind == "emptytoc": open(os.path.join(p, "toc"), "a").close(); open(os.path.join(p, "schema"), "w").write(fam.text)
                    elif kind == "notoc" and os.path.exists(p) and left in (0, 3): open(os.path.join(p, "toc.9.9.9"), "w").write("x")
                    elif os.path.exists(p):
                        if kind == "foreign": open(os.path.join(p, "notes"), "w").write("n")
                        if kind == "dir": os.makedirs(os.path.join(p, "d/e"), exist_ok=True)
                        if kind == "link" and not os.path.lexists(os.path.join(p, "l")): os.symlink(os.path.join(out, "precious"), os.path.join(p, "l"))
                    labels.add(kind)
                w.env = dict(env, **ENV[c["env"]]) if fam.name == "mars" or c["env"] < 3 else env
                roots = w.roots + [dest, out, top]; s0 = snapshot(roots); hist = []; dbs = sorted(p for r in w.roots for p in (os.path.join(r, x) for x in os.listdir(r)))
                e2 = dict(w.env, FDB5_CONFIG_FILE=cf); tmp = sc.mkdir("tmp"); d, h = w.reader(1); nt = 0
                for what, q, seed in c["qs"]:
                    rn = random.Random(seed)
                    if q is None: req = {}
                    elif isinstance(q, int):
                        kx = c["pool"][q]; lv = levels_of(fam, kx); depth = rn.choice([0, 1, 2, 2]); req = {k: [v] for l in lv[:depth + 1] for k, v in l.items()}
                    else: req = q
                    r = {"req": req} if req else {"req": {}, "all": True}
                    if what.startswith("fdb-"):
                        if nt > 3: continue
                        if any(not re.fullmatch(r"[\w.][\w.-]*", v) for vs in req.values() for v in vs): req = {}
                        nt += 1; t = ",".join("%s=%s" % (k, "/".join(v)) for k, v in req.items()) if req else "--all"; a = []; raw = ["--raw"]; mk = ["--minimum-keys="]
                        if what == "fdb-list": a = rn.sample(["--full", "--location", "--timestamp", "--length", "--porcelain", "--json", "--compact", "--only-duplicates", "--depth=%d" % rn.randint(1, 3)], rn.randint(0, 3)) + raw + mk + [t]
                        elif what == "fdb-axes": a = rn.sample(["--json", "--level=2"], rn.randint(0, 2)) + raw + mk + [t]
                        elif what in ("fdb-stats", "fdb-status", "fdb-where", "fdb-dump"): a = rn.sample({"fdb-stats": ["--details"], "fdb-dump": ["--simple"], "fdb-where": ["--porcelain"]}.get(what, []), rn.randint(0, 1) if what != "fdb-status" else 0) + raw + mk + [t]
                        elif what == "fdb-purge": a = rn.sample(["--porcelain", "--ignore-no-data"], rn.randint(0, 2)) + raw + mk + [t]; dry = True
                        elif what == "fdb-wipe": a = rn.sample(["--porcelain", "--ignore-no-data", "--unsafe-wipe-all"], rn.randint(0, 3)) + raw + mk + [t]; dry = True
                        elif what == "fdb-dump-toc": a = rn.sample(["--walk", "--structure"], rn.randint(0, 2)) + [rn.choice(dbs or [root])]
                        elif what == "fdb-dump-index":
                            fs = [os.path.join(p, f) for p in dbs for f in os.listdir(p) if f.endswith(".index")]; a = [rn.choice(fs)] if fs else [root]
                        elif what == "fdb-info": a = ["--all"]
                        elif what == "fdb-schema": a = [rn.choice(dbs) + "/schema"] if dbs else []
                        elif what in ("fdb-root", "fdb-hide"):
                            if not isinstance(q, int) or not req: continue
                            t = ",".join("%s=%s" % (k, v[0]) for k, v in req.items() if k in levels_of(fam, c["pool"][q])[0])
                            a = [t]; dry = dry or what == "fdb-hide"
                        elif what == "fdb-inspect": a = raw + [t]
                        elif what == "fdb-read": rq = os.path.join(tmp, "rq"); open(rq, "w").write("retrieve,\n" + (t if req else "class=od") + "\n"); a = ["--raw", rq, os.path.join(tmp, "target")]
                        elif what == "fdb-compare": a = ["--config1=" + cf, "--config2=" + cf] + (["--scope=mars"] if rn.random() < .7 else [])
                        elif what == "fdb-move": a = raw + mk + rn.sample(["--keep", "--threads=2"], rn.randint(0, 2)) + [t]      # without a destination
                        rc, o = tool(what, *a, env=e2); ok = rc == 0; call = [what] + a
                    else:
                        kw = dict(r, h=h, level=rn.randint(1, 3), mode=rn.choice(["full", "dedup", "dups"]), read=bool(rn.randint(0, 1)), location=bool(rn.randint(0, 1)), simple=bool(rn.randint(0, 1)), porcelain=bool(rn.randint(0, 1)), force=bool(rn.randint(0, 1)))
                        if what in ("inspect", "retrieve", "read"): kw["req"] = req or {"a": ["1"]}; kw.pop("all", None)
                        if what == "read": kw["kind"] = rn.choice(["inspect", "list", "retrieve"])
                        if what in ("purge", "wipe"): kw["doit"] = False; dry = True
                        ok = d.raw(what, **kw).get("ok"); call = [what, {k: v for k, v in kw.items() if k != "h"}]
                    labels.add(what); labels.add("succeeds" if ok else "fails"); hist.append(call); s1 = snapshot(roots)
                    if s1 != s0: raise Violation("%s (%s) changes %s" % (show(call, 500), "success" if ok else "error", show([(a, p) + ((s0[p][:4], s1[p][:4]) if a == "~" else ()) for a, p in treediff(s0, s1)])))
                    if os.path.exists(missing): raise Violation("%s creates the missing root" % show(call, 500))
                w.done(d, h)
                if snapshot(roots) != s0: raise Violation("closing a session of queries changes %s" % show(treediff(s0, snapshot(roots))))
            finally: w.cleanup()
        return {"labels": sorted(labels), "nontrivial": len(hist) > 2 and (dry or bool(c["mess"]))}
if __name__ == "__main__": main(C30())
