import sys, os, subprocess; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
from grib import message, decoded
SCHEMA = "[class, expver, stream, date, time, domain?\n [type, levtype\n  [step, levelist?, param]]]\n"
CL = ["od", "rd", "ea"]; EX = ["0001", "abcd", "xxxx"]
@st.composite
def overlays(draw):
    dbs = draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.sampled_from([0] * 9 + [1]), st.sampled_from([0] * 9 + [1])).map(list), min_size=2, max_size=4, unique_by=tuple))
    pool = draw(st.lists(st.tuples(st.sampled_from(["an", "fc"]), st.sampled_from([0, 0, 500, 850]), st.sampled_from([0, 6]), st.sampled_from([130, 131])).map(list), min_size=1, max_size=5, unique_by=tuple))
    d = st.integers(0, len(dbs) - 1); fs = st.lists(st.integers(0, len(pool) - 1), min_size=1, max_size=4)
    op = st.one_of(*[st.tuples(st.just("a"), d, fs)] * 5, *[st.tuples(st.just("o"), d, d, st.sampled_from([1, 1, 1, 0]))] * 4, st.tuples(st.just("r"), d, d), *[st.tuples(st.just("x"), st.integers(0, 5))] * 3, st.tuples(st.just("h"), d, st.sampled_from([1, 1, 1, 0])), st.tuples(st.just("w"), d))
    ops = [["a", 0, draw(fs)]] + [list(o) for o in draw(st.lists(op, min_size=2, max_size=12))]
    return {"kind": "overlay", "opt": draw(st.integers(0, 2)), "dbs": dbs, "pool": pool, "ops": ops, "sample": draw(st.sampled_from(["GRIB1", "GRIB2"]))}
@st.composite
def reindexes(draw):
    c = draw(histories(18, mop=("a", "a", "a", "a", "f", "c"))); c["kind"] = "reindex"
    c["how"] = draw(st.sampled_from(["tool", "api"])); c["req"] = draw(sub_requests(FAMS[c["fam"]])) if draw(st.booleans()) else {}
    c["pre"] = draw(st.lists(st.integers(0, len(c["pool"]) - 1), max_size=3)); c["post"] = draw(st.lists(st.integers(0, len(c["pool"]) - 1), max_size=3)); return c
RFAM = [Fam("req", "[a, b\n [c, d\n  [e, f, g]]]\n", [[K(0, "a", ["1", "2"]), K(0, "b", ["x", "y"]), K(1, "c", V4), K(1, "d", ["1", "2"]), K(2, "e", V4), K(2, "f", ["1", "2"]), K(2, "g", ["1"])]]), FAMS[4]]
@st.composite
def recons(draw):
    fi = draw(st.integers(0, 1)); pool = draw(pools(RFAM[fi], 1, 8, (1, 1, 2, 0))); ix = st.integers(0, len(pool) - 1); w = st.integers(0, 1)
    op = st.one_of(*[st.tuples(st.just("a"), w, ix, SIZES)] * 4, st.tuples(st.just("f"), w), st.tuples(st.just("f"), w), st.tuples(st.just("c"), w), st.tuples(st.just("R"), ix), st.tuples(st.just("P"), ix))
    return {"kind": "recon", "fam": fi, "opt": draw(st.integers(0, 3)), "pool": pool, "ops": [list(o) for o in draw(st.lists(op, min_size=4, max_size=20))] + [["R", draw(ix)]]}
def tool(name, *args, env=None):
    e = base_env(**(env or {}))
    for n in range(3):
        p = subprocess.run([os.path.join(BUILD, "plain", "bin", name), *args], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
        if p.returncode >= 0: break
    return p.returncode, p.stdout
def eq(rep, msg): return same(rep, msg) or decoded(rbytes(rep)) is not None and decoded(rbytes(rep)) == decoded(msg)
class C11(Check):
    prop = "C11"; quick = 1000; thorough = 20000; targets = ("vdriver", "vgrib", "fdb-overlay", "fdb-hide", "fdb-reindex", "fdb-reconsolidate-toc")
    rule = ("cases: (a) histories over two to four databases of GRIB messages with fdb-overlay (also forced, nested, repeated, refused), its removal, fdb-hide, wipes and new sessions; (b) histories reindexed (fdb-reindex or the interface) "
            "into another archive that already has fields and is written on; (c) histories with fdb-reconsolidate-toc and purges between sessions; non-trivial: (a) an overlay of a database with fields, (b) two fields reindexed, (c) two fields reconsolidated")
    def strategy(self): return st.one_of(overlays(), overlays(), reindexes(), recons())
    def run(self, c): return getattr(self, c["kind"])(c)
    # ------------------------------------------------------------ overlays and hiding of databases of GRIB messages
    def overlay(self, c):
        on, user, env = OPTS[[0, 1, 2][c["opt"]]]; labels = ["overlay", on]; nontriv = False; stale = None
        with Scratch() as sc:
            w = World(sc, Fam("grib", SCHEMA, []), user, env); cf = sc.write("cfg.yaml", w.cfg); root = w.roots[0]
            def dbkey(i):
                cl, ex, dm, dt = c["dbs"][i]
                r = {"class": CL[cl], "expver": EX[ex], "stream": "oper", "date": ["20200101", "20200102"][dt], "time": "1200"}
                if not dm: r["domain"] = "g"
                return r
            def fkey(j): ty, lv, stp, par = c["pool"][j]; r = {"type": ty, "levtype": "pl" if lv else "sfc", "step": str(stp), "param": str(par)}; return dict(r, levelist=str(lv)) if lv else r
            def msg(db, j, v):
                k = dbkey(db); f = fkey(j); m = {"class": k["class"], "expver": k["expver"], "stream": "oper", "date": k["date"], "time": "1200", "type": f["type"], "levtype": f["levtype"], "step": f["step"], "param": f["param"]}
                if "levelist" in f: m["levelist"] = f["levelist"]
                return m, (v, v + 1, v + 2, v + 3)
            n = len(c["dbs"]); ent = [[] for _ in range(n)]; exists = [False] * n; blocked = [set() for _ in range(n)]; vals = {}; pid = 0
            dirs = [os.path.join(root, ":".join([k.get(x, "") for x in ("class", "expver", "stream", "date", "time", "domain")])) for k in map(dbkey, range(n))]
            def reach(a, seen=()):  # databases whose content a shows
                r = {a}
                for e in ent[a]:
                    if e[0] == "o" and e[1] not in r: r |= reach(e[1])
                return r
            def visible(i):
                r = {}
                for e in ent[i]:
                    if e[2]: continue
                    if e[0] == "f": r.update(e[1])
                    elif exists[e[1]]: r.update(visible(e[1]))
                return r
            def rq(i): return ",".join("%s=%s" % x for x in dbkey(i).items())
            try:
                for op in c["ops"]:
                    i = op[1]
                    if op[0] == "x":       # remove one of the overlays there are
                        there = sorted({(e[1], b) for b in range(n) for e in ent[b] if e[0] == "o"})
                        if not there: continue
                        op = ["r", *there[i % len(there)]]; i = op[1]
                    if op[0] == "a":
                        d = w.open("w", 0); new = {}
                        for j in op[2]:
                            pid += 1; vals[pid] = (i, j); b = message(c["sample"], msg(i, j, pid)[1], **msg(i, j, pid)[0])[0]
                            d.ok("archive", h=w.name("w"), key=dict(dbkey(i), **fkey(j)), data={"hex": b.hex()}, now=w.tick()); new[j] = (pid, j)
                        d.ok("close", h=w.name("w"), now=w.tick())
                        ent[i].append(["f", new, False]); exists[i] = True
                    elif op[0] == "h":
                        rc, out = tool("fdb-hide", "--config=" + cf, *(["--doit"] if op[2] else []), rq(i), env=env)
                        if (rc == 0) != exists[i]: raise Violation("hiding the contents of a database that %s: status %d: %s" % ("exists" if exists[i] else "does not exist", rc, show(out[-300:])))
                        if exists[i] and op[2]:
                            labels.append("hide")
                            for e in ent[i]:
                                e[2] = True
                                if e[0] == "o": blocked[i].add(e[1])
                    elif op[0] in "or":
                        a, b = op[1], op[2]
                        if a == b or op[0] == "o" and b in reach(a): continue
                        ka, kb = dbkey(a), dbkey(b); fit = all(ka[x] == kb[x] for x in ("date",)) and set(ka) == set(kb)
                        before = tree(root)
                        rc, out = tool("fdb-overlay", "--config=" + cf, *(["--remove"] if op[0] == "r" else ["--force"] if op[3] else []), rq(a), rq(b), env=env)
                        if op[0] == "o":
                            may = fit and exists[a] and (op[3] or not exists[b])
                            if may != (rc == 0): raise Violation("the overlay of %s onto %s %s: %s" % (ka, kb, "fails" if may else "is not refused", show(out[-400:])))
                            if may: ent[b].append(["o", a, a in blocked[b]]); exists[b] = True; labels.append("overlay"); nontriv = nontriv or len(visible(a)) > 0
                        else:
                            on_ = exists[a] and exists[b] and fit and any(e[0] == "o" and e[1] == a and not e[2] for e in ent[b]); sure = on_ and visible(a)
                            if on_ and not sure: may = rc == 0      # nothing of it can be seen: whether it counts as mounted is not specified
                            else: may = bool(sure)
                            if may != (rc == 0): raise Violation("the removal of the overlay of %s onto %s %s: %s" % (ka, kb, "fails" if may else "is not refused", show(out[-400:])))
                            if may:
                                labels.append("removed"); blocked[b].add(a)
                                for e in ent[b]:
                                    if e[0] == "o" and e[1] == a: e[2] = True
                        if rc and tree(root) != before: raise Violation("a refused overlay changes the archive: %s" % treediff(before, tree(root)))
                    elif op[0] == "w":
                        if not exists[i] or any(j != i and exists[j] and dbkey(i).items() < dbkey(j).items() for j in range(n)): continue     # it would also name another one
                        others = {k: v for k, v in tree(root).items() if not k.startswith(os.path.basename(dirs[i]) + "/")}
                        d, h = w.reader(0); d.ok("wipe", h=h, req={k: [v] for k, v in dbkey(i).items()}, doit=True, now=w.tick()); w.done(d, h); labels.append("wipe")
                        now = {k: v for k, v in tree(root).items() if not k.startswith(os.path.basename(dirs[i]) + "/")}
                        if now != others: raise Violation("wiping %s touches other databases: %s" % (dbkey(i), show(treediff(others, now))))
                        ov = [e for e in ent[i] if e[0] == "o" and not e[2] and exists[e[1]] and visible(e[1])]
                        if ov:      # its own data go, what it shows of others stays
                            ent[i] = [e for e in ent[i] if e[0] == "o"]
                        else:
                            if os.path.exists(dirs[i]) and not any(e[0] == "o" for e in ent[i]): raise Violation("%s is still there after it was wiped: %s" % (dirs[i], os.listdir(dirs[i])))
                            if os.path.exists(dirs[i]): ent[i] = [e for e in ent[i] if e[0] == "o"]
                            else: exists[i] = False; ent[i] = []; blocked[i] = set()
                    # what every database shows
                    d, h = w.reader(1)
                    for b in range(n):
                        want = visible(b) if exists[b] else {}
                        q = {k: [v] for k, v in dbkey(b).items()}
                        es = [e for e in listing(d, h, q, "dedup", True) if dict(map(tuple, e["keys"][0])).get("domain", "") == dbkey(b).get("domain", "")]
                        got = {}; orig = {}
                        for e in es:
                            k = elem_ident(e); got[k] = e.get("data")
                            if "data" not in e: raise Violation("a listed field cannot be read: %s: %s" % (k, e.get("readerr")))
                        exp = {}
                        for j, (p, j0) in want.items():
                            src = vals[p][0]; m, v = msg(b, j, p); k = ident(dict(dbkey(b), **fkey(j))); exp[k] = message(c["sample"], v, **m)[0]
                            m, v = msg(src, j, p); orig[k] = message(c["sample"], v, **m)[0]
                        if set(got) != set(exp): raise Violation("after %s: %s lists %s, expected %s" % (op, dbkey(b), show(sorted(got)), show(sorted(exp))))
                        for k in exp:
                            if not eq(got[k], exp[k]) and same(got[k], orig[k]): stale = stale or "after %s: what %s lists for %s reads as the message of the overlaid database, with its class and expver" % (op, dbkey(b), k)
                            elif not eq(got[k], exp[k]): raise Violation("after %s: the listed field %s is %s, expected %s" % (op, k, show(decoded(rbytes(got[k]))), show(decoded(exp[k]))))
                        for k in list(exp)[:3]:
                            r = d.ok("retrieve", h=h, req={x: [y] for x, y in k})
                            if not eq(r, exp[k]): raise Violation("after %s: the retrieval of %s does not give the expected message" % (op, k))
                    w.done(d, h)
            finally: w.cleanup()
        if stale: raise Violation(stale, sig="overlay-list-read", lab={"labels": labels, "nontrivial": nontriv})      # only after everything else has been checked
        return {"labels": labels, "nontrivial": nontriv}
    # ------------------------------------------------------------ reindexing into another archive
    def reindex(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; labels = ["reindex", fam.name, on, c["how"]]
        with Scratch() as sc:
            w = World(sc, fam, user, env); src = sc.write("src.yaml", w.cfg); sink = World(sc, fam, user, env, nroots=1)
            sink.roots = [sc.mkdir("sink")]; sink.cfg = config(sink.schema, sink.roots); sink.pid = 5000; dst = sc.write("dst.yaml", sink.cfg)
            sink.name = lambda h: "%ssink%s" % (os.path.basename(sc.d), h)
            try:
                for op in c["ops"]: step(w, c, op)
                w.closeall(); sink.now = w.now
                for j in c["pre"]: sink.archive(0, c["pool"][j], 33)
                sink.closeall(); w.now = sink.now + 5
                req = c["req"]; how = c["how"]
                if how == "tool" and (not req or any(not v or not all(ch.isalnum() or ch in "_.-" for ch in v) for vs in req.values() for v in vs)): how = "api"
                before = tree(w.roots[0])
                d, h = w.reader(1); want = listing(d, h, req, "dedup", True); w.done(d, h)
                if how == "tool":
                    rc, out = tool("fdb-reindex", "--raw", "--source-config=" + src, "--sink-config=" + dst, "--minimum-keys=", ",".join("%s=%s" % (k, "/".join(v)) for k, v in req.items()), env=env)
                    if rc: raise Violation("fdb-reindex fails: %s" % show(out[-400:]))
                else:
                    d, h = w.reader(2); s2 = sink.open("x", 2); s2.ok("reindexelem", h=h, to=sink.name("x"), req=req, now=w.tick(), **({} if req else {"all": True})); s2.ok("flush", h=sink.name("x"), now=w.tick()); s2.ok("close", h=sink.name("x")); w.done(d, h)
                if tree(w.roots[0]) != before: raise Violation("reindexing changes the source: %s" % show(treediff(before, tree(w.roots[0]))))
                new = {elem_ident(e): e for e in want}; exp = {i: r[-1] for i, r in sink.m.hist.items() if r}
                def verify(when):
                    d, h = sink.reader(3); got = {elem_ident(e): e for e in listing(d, h, None, "dedup", True)}
                    ids = set(new) | set(exp)
                    if set(got) != ids: raise Violation("%s the sink lists %s, expected %s" % (when, show(sorted(got)), show(sorted(ids))))
                    for i, e in got.items():
                        if "data" not in e: raise Violation("%s a field of the sink cannot be read: %s: %s" % (when, i, e.get("readerr")))
                        if i in new:
                            if (e["path"], e["off"], e["len"]) != (new[i]["path"], new[i]["off"], new[i]["len"]) or e["data"] != new[i]["data"]: raise Violation("%s the sink's %s is at %s, that of the source at %s" % (when, i, (e["path"], e["off"], e["len"]), (new[i]["path"], new[i]["off"], new[i]["len"])))
                        elif not same(e["data"], exp[i].data()): raise Violation("%s the sink's own %s is not the last one archived" % (when, i))
                    for i in sorted(got)[:4]:
                        if any(set(j) < set(i) for j in got): continue
                        r = d.ok("retrieve", h=h, req={k: [v] for k, v in i})
                        if r["md5"] != got[i]["data"]["md5"]: raise Violation("%s the retrieval of %s from the sink gives other bytes" % (when, i))
                    sink.done(d, h)
                verify("after the reindexing")
                sink.now = w.now + 5
                for j in c["post"]: sink.archive(1, c["pool"][j], 37)
                sink.closeall()
                for j in c["post"]: i = ident(key_of(fam, c["pool"][j])); new.pop(i, None)
                exp = {i: r[-1] for i, r in sink.m.hist.items() if r}
                if c["post"]: verify("after new writes")
            finally: w.cleanup(); sink.cleanup()
        return {"labels": labels, "nontrivial": len(new) > 1}
    # ------------------------------------------------------------ reconsolidation of the indexes of a database
    def recon(self, c):
        fam = RFAM[c["fam"]]; on, user, env = OPTS[c["opt"]]; labels = ["recon", fam.name, on]; nontriv = False
        with Scratch() as sc:
            w = World(sc, fam, user, env); cf = sc.write("cfg.yaml", w.cfg)
            try:
                for op in c["ops"]:
                    if step(w, c, op): continue
                    w.closeall(); db = os.path.join(w.roots[0], dbname(fam, c["pool"][op[1]]))
                    if not os.path.isdir(db): continue
                    d, h = w.reader(1); a = {elem_ident(e): e for e in listing(d, h, None, "dedup", True)}; w.done(d, h)
                    if op[0] == "R":
                        rc, out = tool("fdb-reconsolidate-toc", "--config=" + cf, db, env=env); labels.append("reconsolidated")
                        if rc: raise Violation("fdb-reconsolidate-toc fails: %s" % show(out[-400:]))
                        nontriv = nontriv or sum(1 for e in a.values() if os.path.dirname(e["path"]) == db) > 1
                    else:
                        d, h = w.reader(2); d.ok("purge", h=h, doit=True, req={}, all=True, now=w.tick()); w.done(d, h); labels.append("purged")
                    d, h = w.reader(1); b = {elem_ident(e): e for e in listing(d, h, None, "dedup", True)}
                    vis = w.m.visible()
                    if set(b) != set(vis): raise Violation("after %s the archive lists %s, expected %s" % (op, show(sorted(b)), show(sorted(vis))))
                    for i, e in b.items():
                        if "data" not in e or not same(e["data"], vis[i].data()): raise Violation("after %s %s is not the field last archived" % (op, i))
                        r = d.ok("retrieve", h=h, req={k: [v] for k, v in i})
                        if not same(r, vis[i].data()): raise Violation("after %s the retrieval of %s does not give the field last archived" % (op, i))
                    w.done(d, h)
            finally: w.cleanup()
        return {"labels": labels, "nontrivial": nontriv}
if __name__ == "__main__": main(C11())
