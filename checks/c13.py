import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
@st.composite
def cases(draw):
    c = draw(histories(maxops=20, mop=("a", "a", "a", "a", "f", "c"))); nb = len(c["pool"])
    c["adopt"] = draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, nb - 1), min_size=1, max_size=3))); c["mid"] = draw(st.integers(0, len(c["ops"]))); c["purge"] = draw(st.sampled_from([0, 0, 1]))
    c["after"] = draw(st.lists(st.integers(0, nb - 1), max_size=3)); c["req"] = draw(sub_requests(FAMS[c["fam"]])); c["details"] = draw(st.booleans()); return c
def report(t):
    r = Counter()       # zero counts are not printed
    for l in t.split("\n"):
        if ":" in l: k, v = l.split(":", 1); r[k.strip()] = int(v.split("(")[0].replace(",", "").strip())
    return r
def tup(x): return tuple(sorted(x.items()))
class C13(Check):
    prop = "C13"; quick = 1900; thorough = 50000; targets = ("vdriver", "fdb-stats")
    rule = ("cases: overwrite histories over several databases and indexes (sub-TOCs, adopted data, purges), whose statistics are compared per database with counts made from the model, the full listing and the directories, and whose totals by fdb-stats are compared with the sums; "
            "non-trivial: at least one superseded field is counted")
    def strategy(self): return cases()
    def run(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; nt = [False]; labels = set()
        with Scratch() as sc:
            w = World(sc, fam, user, env); other = sc.mkdir("elsewhere"); ocfg = config(w.schema, [other]); purged = False
            def check(req):
                d, h = w.reader(); m = w.m
                full = listing(d, h, None, "full"); ded = listing(d, h, None, "dedup"); dbs = defaultdict(lambda: [[], []])
                for k, es in ((0, full), (1, ded)):
                    for e in es: dbs[elem_levels(e)[0]][k].append(e)
                if not purged:      # the listing against the model
                    for dbk, (f, v) in dbs.items():
                        hs = [r for i, q in m.hist.items() if ident(m.levels[i][0]) == dbk for r in q]
                        if len(hs) != len(f) or sum(r.n for r in hs) != sum(e["len"] for e in f): raise Violation("database %s: the full listing has %d fields, archived were %d" % (dict(dbk), len(f), len(hs)))
                a = dict(h=h, req=req or {})
                if not req: a["all"] = True
                got = []
                for e in d.ok("stats", **a)["elems"]:
                    x = {"fields": e["fields"], "fsize": e["fsize"], "dups": e["dups"], "dsize": e["dsize"]}; ir = report(e["ireport"]); r = report(e["report"]); raw = e
                    if (ir["Fields"], ir["Size of fields"], ir["Duplicated fields"], ir["Size of duplicates"], ir["Reacheable fields"], ir["Reachable size"]) != (x["fields"], x["fsize"], x["dups"], x["dsize"], x["fields"] - x["dups"], x["fsize"] - x["dsize"]): raise Violation("the printed index statistics are not the reported ones: %s %s" % (e["ireport"], x))
                    x.update(dbs=r["Databases"], schema=r["Size of schemas files"], own=r.get("Owned data files", 0), ownsize=r["Size of owned data files"], adopted=r.get("Adopted data files", 0), adsize=r["Size of adopted data files"], idx=r.get("Index files", 0))
                    if r["Total owned size"] != r["Size of TOC files"] + r["Size of schemas files"] + r["Size of index files"] + r["Size of owned data files"] or r["Total size"] != r["Total owned size"] + r["Size of adopted data files"]: raise Violation("the totals are not the sums: %s" % e["report"])
                    x["toc"] = r["Size of TOC files"]; x["idxsize"] = r["Size of index files"]; x["records"] = r["TOC records"]; got.append(x)
                want, may = [], []
                for p in sorted(os.listdir(w.roots[0])):
                    dd = os.path.join(w.roots[0], p)
                    if not os.path.isdir(dd) or not os.path.exists(dd + "/toc"): continue
                    # identify the database by its directory name
                    k = next((i for i in m.levels if dbname(fam, m.kx[i]) == p), None); dbk = ident(m.levels[k][0]); f, v = dbs.get(dbk, [[], []]); lv = m.levels[k][0]
                    data = {e["path"] for e in f}; own = {q for q in data if os.path.dirname(q) == dd}; files = os.listdir(dd)
                    index = [os.path.join(dd, q) for q in files if q.endswith(".index")]
                    x = {"fields": len(f), "fsize": sum(e["len"] for e in f), "dups": len(f) - len(v), "dsize": sum(e["len"] for e in f) - sum(e["len"] for e in v), "dbs": 1, "schema": os.path.getsize(dd + "/schema"),
                         "own": len(own), "ownsize": sum(map(os.path.getsize, own)), "adopted": len(data - own), "adsize": sum(map(os.path.getsize, data - own))}
                    if not w.subtoc: x["idx"] = len(index); x["idxsize"] = sum(map(os.path.getsize, index)); x["toc"] = os.path.getsize(dd + "/toc")
                    elif not w.w: x["toc"] = os.path.getsize(dd + "/toc")
                    if not w.subtoc and not purged:
                        t = d.ok("dump", h=h, req=dict((a, [b]) for a, b in dbk), simple=True)["elems"]
                        t = [q for q in "\n".join(t).split("\n") if q.startswith("TOC_")]
                        n = sum(q.startswith("TOC_INIT") for q in t)
                        if n == 1: x["records"] = len(t)
                    if f and x["dups"]: nt[0] = True
                    if x["adopted"]: labels.add("adopted")
                    if purged: labels.add("purged")
                    if not req or all(a not in lv or lv[a] in b for a, b in req.items()): may.append((dbk, x))
                    if not req or all(a in lv and lv[a] in b for a, b in req.items() if any(q[0] == 0 and q[1] == a for q in fam.branches[m.kx[k][0]])) and all(any(q[1] == a for q in fam.branches[m.kx[k][0]]) for a in req): want.append((dbk, x))
                left = list(got)
                def take(x):
                    for g in left:
                        if all(g[k] == x[k] for k in x): left.remove(g); return True
                for dbk, x in want:
                    if not take(x): raise Violation("statistics of %s: nothing reported equals %s: %s; reported %s" % (req, dict(dbk), x, got))
                for dbk, x in may:
                    if (dbk, x) not in want: take(x)
                if left: raise Violation("statistics of %s: %s is no database's; databases: %s" % (req, left, show(may, 1500)))
                w.done(d, h); return got
            try:
                if c["adopt"]:
                    d = w.drv(0); ho = w.name("o"); d.ok("open", h=ho, config=ocfg, user=w.user); w.opened.append((0, "o")); w.sess += 1
                    for j in c["adopt"]:
                        w.pid += 1; k = key_of(fam, c["pool"][j]); i = ident(k); r = Rec(w.pid, 33, w.sess, w.tick()); d.ok("archive", h=ho, key=k, data={"id": r.pid, "len": 33})
                        w.m.levels[i] = levels_of(fam, c["pool"][j]); w.m.kx[i] = c["pool"][j]; w.m.hist[i] = [r]
                    d.ok("flush", h=ho); d.ok("open", h=w.name("n"), config=w.cfg, user=w.user, now=w.tick()); d.ok("reindexelem", h=ho, to=w.name("n"), req={}, all=True, now=w.tick()); d.ok("flush", h=w.name("n"), now=w.tick())
                    d.ok("close", h=w.name("n"), now=w.tick()); d.ok("close", h=ho)
                for n, op in enumerate(c["ops"]):
                    step(w, c, op)
                    if n == c["mid"]:
                        for x in list(w.w): w.flush(x)
                        check({})
                w.closeall(); check({}); check({k: v for k, v in c["req"].items() if any(b[0] == 0 and b[1] == k for br in fam.branches for b in br)})
                if c["purge"] and not c["adopt"]:
                    d, h = w.reader(); d.ok("purge", h=h, doit=True, req={}, all=True, now=w.tick()); w.done(d, h); purged = True; check({})
                    for j in c["after"]: w.archive(7, c["pool"][j], 44)
                    w.closeall()
                got = check({})
                if got and c["details"]:
                    cf = sc.write("cfg.yaml", w.cfg); p = subprocess.run([os.path.join(BUILD, "plain", "bin", "fdb-stats"), "--minimum-keys=", "--all"], env=base_env(FDB5_CONFIG_FILE=cf, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
                    labels.add("tool")
                    if p.returncode or "Summary:" not in p.stdout: raise Violation("fdb-stats fails: %s" % p.stdout[-800:])
                    r = report(p.stdout[p.stdout.find("Summary:") + 8:])
                    s = lambda k: sum(g[k] for g in got)
                    if (r["Number of databases"], r["Fields"], r["Size of fields"], r["Duplicated fields"], r["Size of duplicates"], r["Size of owned data files"], r["Size of index files"], r["Size of TOC files"]) != (len(got), s("fields"), s("fsize"), s("dups"), s("dsize"), s("ownsize"), s("idxsize"), s("toc")): raise Violation("fdb-stats: %s is not the sum of %s" % (p.stdout, got))
            finally: w.cleanup()
        return {"labels": [fam.name, on] + sorted(labels), "nontrivial": nt[0]}
if __name__ == "__main__": main(C13())
