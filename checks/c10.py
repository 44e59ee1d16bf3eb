import sys, os, re, subprocess; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
# keyword values that look like the names of the files of a database
NM = ["toc.x", "a.data", "b.lock", "schema", "i.index", "toc", "duplicates.allow"]
NAMES = Fam("names", "[a, b?\n [c, d?\n  [e]]]\n", [[K(0, "a", ["1", "toc.x", "u.data"]), K(0, "b", ["schema", "x"], True), K(1, "c", NM), K(1, "d", NM[:4], True), K(2, "e", NM)]])
F = FAMS + [NAMES]
DBNAMES = "a,b,c {b}_{a}.{c}\na,b {b}_{a}\nclass,expver,date,time,domain {class}-{expver}-{date}-{time}-{domain}\nclass,expver,date,time {class}-{expver}-{date}-{time}\n"
class ToolDied(Exception): pass
@st.composite
def cases(draw):
    fi = draw(st.integers(0, len(F) - 1)); pool = draw(pools(F[fi])); ix = st.integers(0, len(pool) - 1); w = st.integers(0, 1)
    forms = [st.tuples(st.just("a"), w, ix, SIZES)] * 4 + [st.tuples(st.just("f"), w), st.tuples(st.just("c"), w)]
    one = st.fixed_dictionaries({"i": ix, "dest": st.sampled_from([5, 5, 5, 5, 6, 6, 0, 1, 2, 3, 4]), "how": st.sampled_from(["api", "api", "api", "tool"]), "req": st.sampled_from(["db", "db", "db", "db", "over", "never", "part"]),
                                 "upto": st.sampled_from(["clean", "clean", "clean", "clean", "toc", "copy"]), "thr": st.integers(1, 4), "lock": st.sampled_from([0, 0, 0, 1]), "purge": st.sampled_from([0, 0, 1]),
                                 "after": st.lists(ix, max_size=2)})
    return {"fam": fi, "opt": draw(st.integers(0, 4)), "pool": pool, "ops": [list(o) for o in draw(st.lists(st.one_of(*forms), min_size=3, max_size=16))], "moves": draw(st.lists(one, min_size=1, max_size=3)), "names": draw(st.sampled_from([0, 0, 0, 1]))}
class C10(Check):
    prop = "C10"; quick = 2400; thorough = 40000; targets = ("vdriver", "fdb-move")
    rule = ("cases: histories over three roots, then moves (interface, or the fdb-move tool with 1-4 threads) of databases named in full, over- or under-specified, to every root, to a root that may not be used, or to no root, "
            "stopped after the copy, after the table of contents, or completed, and written on; non-trivial: a database with at least two listed fields was moved")
    def strategy(self): return cases()
    def run(self, c):
        for n in range(3):      # a tool that dies once in many runs (a race in the thread pool of eckit) is tried again
            try: return self.once(c)
            except ToolDied as x: e = x
        raise Violation(str(e))
    def once(self, c):
        fam = F[c["fam"]]; on, user, env = OPTS[c["opt"]]; labels = [fam.name, on]; nontriv = False
        with Scratch() as sc:
            env = dict(env)
            if c["names"]:
                f = os.path.join(scratch_base(), "dbnames")
                if not os.path.exists(f): open(f, "w").write(DBNAMES)
                env["FDB_DBNAMES_FILE"] = f; labels.append("dbnames")
            w = World(sc, fam, user, env, nroots=3); ro = sc.mkdir("root-ro"); out = sc.mkdir("noroot")
            sp = {"handler": "Default", "roots": [{"path": r} for r in w.roots] + [{"path": ro, "writable": False}]}
            w.cfg = json.dumps({"type": "local", "engine": "toc", "schema": w.schema, "spaces": [sp]}); w.opened = []
            dests = w.roots + [ro, out]; cf = sc.write("cfg.yaml", w.cfg)
            try:
                for op in c["ops"]: step(w, c, op)
                w.closeall(); gone = set()
                for mv in c["moves"]:
                    d, h = w.reader(1); full = listing(d, h, None, "full", True); ded = listing(d, h, None, "dedup", True)
                    rel = lambda p: next((os.path.relpath(p, r) for r in w.roots if p.startswith(r + "/")), p)
                    md = lambda es, f=rel: sorted((elem_ident(e), e["ts"], f(e["path"]), e["off"], e["len"], e.get("data", {"md5": e.get("readerr")})["md5"]) for e in es)
                    if any("data" not in e for e in full): raise Violation("a listed field cannot be read before the move")
                    dbs = defaultdict(set)              # key of a database -> its directories, as listed
                    for e in full: dbs[ident(dict(map(tuple, e["keys"][0])))].add(os.path.dirname(e["path"]))
                    lv = levels_of(fam, c["pool"][mv["i"]])[0]; key = ident(lv)
                    if mv["purge"] and len(dbs[key]) == 1:
                        d.raw("purge", h=h, doit=True, porcelain=True, req={k: [v] for k, v in key}, now=w.tick()); w.done(d, h); d, h = w.reader(1); full = listing(d, h, None, "full", True); ded = listing(d, h, None, "dedup", True)
                    w.done(d, h)
                    req = {k: [v] for k, v in key}
                    if mv["req"] == "over": b = next(x for x in fam.branches[c["pool"][mv["i"]][0]] if x[0] == 1); req[b[1]] = [b[3][0]]
                    elif mv["req"] == "never": k = sorted(req)[0]; req[k] = ["99991231"]
                    elif mv["req"] == "part" and len(req) > 1: del req[sorted(req)[0]]
                    how = mv["how"] if all(re.fullmatch(r"[\w.-]+", v[0]) for v in req.values()) else "api"     # what the text of a request can say
                    match = [k for k in dbs if dbs[k] and all(dict(k).get(x) in v for x, v in req.items())]
                    if len(match) > 1 and how == "api": continue       # the tool accepts one database only
                    if mv["lock"] and len(match) == 1: d, h = w.reader(1); d.ok("control", h=h, req=req, action="disable", ids=["archive"]); w.done(d, h)
                    src = next(iter(dbs[match[0]])) if len(match) == 1 and len(dbs[match[0]]) == 1 else None
                    if mv["dest"] > 4: mv = dict(mv, dest=((w.roots.index(os.path.dirname(src)) if src else 0) + mv["dest"] - 4) % 3)
                    dest = dests[mv["dest"]]; before = [tree(r) for r in dests]
                    if match and src is None and len(match) == 1: continue   # an earlier unfinished move left two copies
                    must = src and mv["dest"] < 3 and dest != os.path.dirname(src) and not os.path.exists(os.path.join(dest, os.path.basename(src)))
                    may = must and mv["req"] in ("db", "part")
                    d = w.drv(3); upto = mv["upto"]
                    if how == "tool":
                        if upto == "copy": upto = "clean"
                        rs = ",".join("%s=%s" % (k, v[0]) for k, v in req.items())
                        e = base_env(**env); 
                        if user: e["FDB_CONFIG_FILE"] = cf
                        p = subprocess.run([os.path.join(BUILD, "plain/bin/fdb-move"), "--config=" + cf, "--raw", "--minimum-keys=", "--dest=" + dest, "--threads=%d" % mv["thr"]] + (["--keep"] if upto == "toc" else []) + [rs],
                                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                        ok = p.returncode == 0
                        if p.returncode < 0: raise ToolDied("fdb-move %s dies of signal %d" % (rs, -p.returncode))
                        why = p.stdout.decode("latin-1")[-600:]; n = ok and src is not None
                    else:
                        hm = w.name("m"); d.ok("open", h=hm, config=w.cfg, user=w.user); w.opened.append((3, "m"))
                        x = d.raw("move", h=hm, req=req, dest=dest, upto=upto, now=w.tick()); d.ok("close", h=hm); ok = x["ok"]; why = x.get("what"); n = ok and x["n"]
                    after = [tree(r) for r in dests]
                    # the tool refuses a request that databases without the keywords it names could match too
                    if how == "tool" and "more than one" in why and sum(all(x not in dict(k) or dict(k)[x] in v for x, v in req.items()) for k in dbs if dbs[k]) > 1: may = False
                    if may and not (ok and n): raise Violation("the move of %s to another root is refused: %s" % (req, why))
                    if not (ok and n):
                        labels.append("refused")
                        if before != after: raise Violation("a refused move (%s to %s) changes %s" % (req, dest, show([treediff(x, y) for x, y in zip(before, after)])))
                    else:
                        if not must: raise Violation("the move of %s to %s is not refused (%s)" % (req, dest, "no database or more than one matches" if not src else "not a place to move to"))
                        labels += ["moved", upto, how]; name = os.path.basename(src); nontriv = nontriv or sum(1 for e in full if os.path.dirname(e["path"]) == src) > 1
                        strip = lambda t: {k: v for k, v in t.items() if not (k + "/").startswith(name + "/")}
                        inner = lambda t: {k[len(name) + 1:]: v for k, v in t.items() if k.startswith(name + "/") and k != name + "/"}
                        locks = {"archive.lock", "wipe.lock", "duplicates.allow", "list.lock", "retrieve.lock"}
                        si = dests.index(os.path.dirname(src)); di = mv["dest"]
                        for j, (x, y) in enumerate(zip(before, after)):
                            if strip(x) != strip(y): raise Violation("the move of %s changes other things: %s" % (req, show(treediff(strip(x), strip(y)))))
                            if j not in (si, di) and x != y: raise Violation("the move changes a third root: %s" % treediff(x, y))
                        old, new, left = inner(before[si]), inner(after[di]), inner(after[si])
                        data = lambda t: {k: v for k, v in t.items() if k not in locks}
                        if upto != "copy" and data(old) != data(new): raise Violation("the files at the destination differ: %s" % show(treediff(data(old), data(new))))
                        if upto == "clean" and name + "/" in after[si]: raise Violation("after the move the source still has %s" % show(list(left) or name))
                        if upto != "clean" and data(old) != data(left): raise Violation("the source changes although it is kept: %s" % show(treediff(data(old), data(left))))
                    d, h = w.reader(1); full2 = listing(d, h, None, "full", True); ded2 = listing(d, h, None, "dedup", True)
                    both = ok and n and upto == "toc"
                    if md(ded2) != md(ded): raise Violation("the %s move of %s changes the listing: %s -> %s" % ("refused" if not (ok and n) else "", req, show(md(ded), 600), show(md(ded2), 600)))
                    if not both and md(full2) != md(full): raise Violation("the move of %s changes the full listing: %s -> %s" % (req, show(md(full), 600), show(md(full2), 600)))
                    if ok and n and upto == "clean" and any(e["path"].startswith(src + "/") for e in full2): raise Violation("after the move fields are still at the source")
                    vis = {elem_ident(e): e for e in ded2}
                    for i in sorted(vis)[:4]:
                        if any(set(j) < set(i) for j in vis): continue
                        x = d.ok("retrieve", h=h, req={k: [v] for k, v in i})
                        if x["md5"] != vis[i]["data"]["md5"]: raise Violation("after the move the retrieval of %s differs" % (i,))
                    if not (both or ok and n and upto == "copy") :
                        locked = set()
                        if ok and n or mv["lock"]:
                            st_ = d.ok("status", h=h, req={}, all=True)["elems"]
                            for e in st_:
                                k = ident(dict(map(tuple, e["key"])))
                                if k not in dbs: continue
                                if ok and n and k == match[0] and ("archive" not in e["enabled"] or "wipe" not in e["enabled"] or "uniqueroot" not in e["enabled"]): raise Violation("after the move the database is locked: %s" % e["enabled"])
                                if "archive" not in e["enabled"]: locked.add(k)
                        w.done(d, h)
                        for j in mv["after"]:
                            k = ident(levels_of(fam, c["pool"][j])[0])
                            if k in locked or k in gone: continue
                            exclusive(w, 7); w.archive(7, c["pool"][j], 44)
                            i = ident(key_of(fam, c["pool"][j]))
                        w.closeall(); d, h = w.reader(1)
                        got = {elem_ident(e): (e["data"]["len"], e["data"]["md5"]) for e in listing(d, h, None, "dedup", True)}
                        want = {i: (e["len"], e["data"]["md5"]) for i, e in vis.items()}
                        for j in mv["after"]:
                            i = ident(key_of(fam, c["pool"][j]))
                            if ident(levels_of(fam, c["pool"][j])[0]) not in locked and w.m.hist[i]: r = w.m.hist[i][-1]; want[i] = (r.n, hashlib.md5(r.data()).hexdigest())
                        if got != want: raise Violation("after a move and new writes the listing has %s, expected %s" % (show(got), show(want)))
                        w.done(d, h)
                        for k in locked: d, h = w.reader(1); d.ok("control", h=h, req={x: [y] for x, y in k}, action="enable", ids=["archive"]); w.done(d, h)
                    else: w.done(d, h); break      # an unfinished move ends the case
            finally: w.cleanup()
        return {"labels": labels, "nontrivial": nontriv}
if __name__ == "__main__": main(C10())
