import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
FOREIGN = ["notes.txt", "x:1.20200101.data", "y.index", "toc.bak", "sub/", "link", ".hidden", "schema~"]
@st.composite
def requests(draw, fam, pool):
    """Mostly requests a user makes: database keywords of a stored identifier, perhaps index keywords, perhaps not all of them, perhaps more values or more keywords."""
    if draw(st.integers(0, 9)) == 0: return {}
    kx = draw(st.sampled_from(pool)); r = {}; depth = draw(st.sampled_from([0, 0, 1, 1, 1, 1, 2]))
    for k, i in zip(fam.branches[kx[0]], kx[1:]):
        if k[0] > depth or draw(st.integers(0, 5)) == 0: continue
        v = [k[3][i]] if i >= 0 else []
        if not v and draw(st.integers(0, 3)): continue
        if not v or draw(st.integers(0, 3)) == 0: v = sorted(set(v + draw(st.lists(st.sampled_from(k[3]), min_size=1, max_size=2))))
        r[k[1]] = v
    return r
@st.composite
def cases(draw):
    fi = draw(st.integers(0, len(FAMS) - 1)); fam = FAMS[fi]; pool = draw(pools(fam, 3, 7, (0, 1, 1, 1))); ix = st.integers(0, len(pool) - 1); wr = st.integers(0, 1)
    a = st.tuples(st.just("a"), wr, ix, st.integers(3, 400)); ops = []
    for _ in range(draw(st.integers(1, 3))):
        ops += draw(st.lists(st.one_of(a, a, a, a, st.tuples(st.just("f"), wr), st.tuples(st.just("c"), wr)), min_size=3, max_size=9))
        ops.append(("w", draw(requests(fam, pool)), draw(st.booleans()), draw(st.one_of(st.just([]), st.just([]), st.lists(st.tuples(ix, st.sampled_from(FOREIGN)), min_size=1, max_size=2))), draw(st.integers(0, 6)), draw(ix), draw(st.booleans())))
    return {"fam": fi, "opt": draw(st.integers(0, len(OPTS) - 1)), "pool": pool, "ops": [list(o) for o in ops], "purge": draw(st.booleans())}
LOCKS = [[], [], [], ["list"], ["wipe"], ["retrieve", "archive"], ["uniqueroot"]]
class C08(Check):
    prop = "C08"; quick = 6000; thorough = 150000
    rule = ("cases: histories with up to three wipes (database, index, over- and unspecific requests; foreign files, auxiliary files, symbolic links and locks in the databases; dry, confirmed, forced); "
            "non-trivial: a confirmed wipe removed fields and left others")
    def strategy(self): return cases()
    def run(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; labels = set(); both = False
        with Scratch() as sc:
            w = World(sc, fam, user, env); root = w.roots[0]; out = sc.mkdir("outside"); sc.write("outside/precious", "p"); sc.write("outside/dir/f", "q"); out0 = tree(out)
            try:
                for op in c["ops"]:
                    if op[0] != "w": step(w, c, op); continue
                    both |= self.wipe(w, c, fam, root, out, op, labels)
                    if tree(out) != out0: raise Violation("a wipe changes files outside the archive: %s" % treediff(out0, tree(out)))
            finally: w.cleanup()
        return {"labels": [fam.name, on] + sorted(labels), "nontrivial": both}
    def wipe(self, w, c, fam, root, out, op, labels):
        _, req, force, foreign, locks, lockix, porc = op; m = w.m; w.closeall(); d, h = w.reader(1)
        md = lambda es: sorted((elem_ident(e), e["ts"], e["path"], e["off"], e["len"], e["data"]["md5"]) for e in es)
        full0 = listing(d, h, None, "full", True)
        if any("data" not in e for e in full0): raise Violation("a listed field cannot be read before the wipe")
        if c["purge"]: d.ok("purge", h=h, req={}, all=True, doit=True); full0 = listing(d, h, None, "full", True)
        dbdirs = {os.path.dirname(e["path"]): ident(dict(map(tuple, e["keys"][0]))) for e in full0}
        for e in full0:      # a database is where its data are
            if os.path.dirname(os.path.dirname(e["path"])) != root: raise Violation("data of %s in %s" % (elem_ident(e), e["path"]))
        empty = {os.path.join(root, x) for x in os.listdir(root)} - set(dbdirs)
        dirof = {v: k for k, v in dbdirs.items()}; dirty = defaultdict(list); locked = {}
        for j, name in foreign:
            l0 = ident(levels_of(fam, c["pool"][j])[0])
            if l0 not in dirof: continue
            p = os.path.join(dirof[l0], name); dirty[dirof[l0]].append(name)
            if name.endswith("/"): os.makedirs(p, exist_ok=True); (force or open(p + "inner", "w").write("i"))
            elif name == "link":
                if not os.path.lexists(p): os.symlink(os.path.join(out, "precious"), p)
            else: open(p, "w").write("foreign")
        for e in full0[:2]: open(e["path"] + ".gribjump", "w").write("aux") if (locks + op[5]) % 3 == 0 and "gribjump" in AUX else None
        lk = LOCKS[locks]
        if lk:
            l0 = ident(levels_of(fam, c["pool"][lockix])[0])
            if l0 in dirof: d.ok("control", h=h, req={k: [v] for k, v in l0}, action="disable", ids=lk); locked = {x["loc"]: lk for x in d.ok("status", h=h, req={}, all=True)["elems"] if set(lk) - set(x["enabled"])}
        # what the request selects
        def field_sel(e):
            l0 = dict(x for x in map(tuple, e["keys"][0]) if x[1] != ""); l1 = dict(x for x in map(tuple, e["keys"][1]) if x[1] != "")
            return all((k in l0 and l0[k] in v) or (k not in l0 and k in l1 and l1[k] in v) for k, v in req.items()) and "wipe" not in locked.get(os.path.dirname(e["path"]), [])
        sel = [e for e in full0 if field_sel(e)]; rest = [e for e in full0 if not field_sel(e)]; seldirs = {os.path.dirname(e["path"]) for e in sel}; whole = seldirs - {os.path.dirname(e["path"]) for e in rest}
        rk = {"req": req} if req else {"req": {}, "all": True}; before = tree(root)
        x = d.raw("wipe", h=h, doit=False, porcelain=porc, force=force, now=w.tick(), **rk)
        if treediff(before, tree(root)): raise Violation("a wipe of %s without confirmation changes %s" % (req, show(treediff(before, tree(root)))))
        haslock = any("wipe" in l for l in locked.values())       # a wipe that meets a database locked for wiping is refused
        if not x["ok"] and not haslock: raise Violation("a dry wipe of %s fails: %s %s" % (req, x.get("err"), x.get("what")))
        dryok = x["ok"]; dry = x.get("elems", []); said = {u for e in dry if e["type"] in (2, 3, 5, 6, 7) for u in e["uris"]}; unknown = {u for e in dry if e["type"] == 9 for u in e["uris"]}
        x = d.raw("wipe", h=h, doit=True, porcelain=porc, force=force, now=w.tick(), **rk); refused = not x["ok"]
        blocked = {p for p in whole | empty if dirty.get(p)} if not force else set()
        if refused and not blocked and not haslock: raise Violation("a wipe of %s fails: %s %s" % (req, x.get("err"), x.get("what")))
        if blocked and not refused: raise Violation("a wipe of %s succeeds although %s holds foreign files %s" % (req, blocked, dict(dirty)))
        w.done(d, h); after = tree(root); diff = treediff(before, after); gone = {os.path.join(root, p) for s, p in diff if s == "-"}
        if any(s == "+" for s, p in diff): raise Violation("a wipe of %s creates %s" % (req, [p for s, p in diff if s == "+"]))
        for s, p in diff:
            top = os.path.join(root, p.split("/")[0])
            if top not in seldirs | empty: raise Violation("a wipe of %s changes %s, in a database of which nothing is selected" % (req, p))
            if top in blocked: raise Violation("a wipe of %s that is refused for foreign files changes %s" % (req, p))
            if s == "~" and not os.path.basename(p).startswith("toc"): raise Violation("a wipe of %s modifies %s" % (req, p))
            if top not in whole | empty and s == "-":
                if not (p.endswith(".index") or p.endswith(".data") or p.endswith(".gribjump")): raise Violation("a wipe of %s removes %s" % (req, p))
                if top in dirty and os.path.basename(p) in dirty[top]: raise Violation("a wipe of part of a database removes the foreign file %s" % p)
        if not refused and not dryok: raise Violation("a wipe of %s is refused without confirmation but executed with it" % req)
        if not refused:
            exp = {p.rstrip("/") for p in gone if os.path.dirname(p.rstrip("/")) != root and os.path.dirname(os.path.dirname(p.rstrip("/"))) == root}
            rep = said | (unknown if force else set())
            if exp != {p.rstrip("/") for p in rep}: raise Violation("a dry wipe of %s reports %s, the confirmed one removes %s" % (req, sorted(rep - exp), sorted(exp - rep)))
            for p in whole:
                if os.path.lexists(p): raise Violation("after a wipe of %s the directory %s is left with %s" % (req, p, os.listdir(p)))
        # the remaining fields
        for p, l in locked.items():
            if os.path.isdir(p):
                d, h = w.reader(1); d.ok("control", h=h, req={k: [v] for k, v in dbdirs[p]}, action="enable", ids=["list", "retrieve", "archive", "wipe", "uniqueroot"]); w.done(d, h)
        d, h = w.reader(1); full1 = listing(d, h, None, "full", True)
        if any("data" not in e for e in full1): raise Violation("after a wipe of %s a listed field cannot be read" % req)
        if not refused:
            if md(full1) != md(rest): raise Violation("after a wipe of %s: lost %s, still there %s" % (req, show([x for x in md(rest) if x not in md(full1)]), show([x for x in md(full1) if x not in md(rest)])))
        elif not (Counter(md(rest)) - Counter(md(full1))) and not (Counter(md(full1)) - Counter(md(full0))): pass
        else: raise Violation("after a refused wipe of %s: lost %s" % (req, show(list((Counter(md(rest)) - Counter(md(full1))).elements()))))
        have = {elem_ident(e): (e["len"], e["data"]["md5"]) for e in listing(d, h, None, "dedup", True)}
        for i in list(m.hist):
            if i not in have: del m.hist[i]; continue
            got = [r for r in m.hist[i]]
            if not any((r.n, hashlib.md5(r.data()).hexdigest()) == have[i] for r in got[-1:]): raise Violation("after a wipe of %s, %s has %s instead of its last value" % (req, i, have[i]))
        for i in sorted(have)[:4]:
            if any(set(j) < set(i) for j in have): continue
            x = d.ok("retrieve", h=h, req={k: [v] for k, v in i})
            if (x["len"], x["md5"]) != have[i]: raise Violation("after a wipe of %s the retrieval of %s differs" % (req, i))
        for i in [elem_ident(e) for e in sel][:3]:
            if refused or i in have or any(set(j) < set(i) for j in have): continue
            x = d.ok("retrieve", h=h, req={k: [v] for k, v in i})
            if x["len"]: raise Violation("after a wipe of %s, %s can still be retrieved" % (req, i))
        w.done(d, h)
        for p, names in dirty.items():      # the foreign files left are taken away again
            for n in names:
                q = os.path.join(p, n.rstrip("/"))
                if os.path.islink(q) or os.path.isfile(q): os.unlink(q)
                elif os.path.isdir(q): shutil.rmtree(q)
        labels |= {"wiped" if sel and not refused else "refused" if refused else "nothing"} | ({"whole"} if whole and not refused else set()) | ({"index"} if seldirs - whole else set()) | ({"foreign"} if dirty else set()) | ({"forced"} if force and dirty else set()) | ({"locked"} if locked else set())
        return bool(sel and rest and not refused)
AUX = ["gribjump"]
if __name__ == "__main__": main(C08())
