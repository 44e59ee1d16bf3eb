import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
@st.composite
def cases(draw):
    c = draw(histories(maxops=20, mop=("a", "a", "a", "f", "c")))
    if draw(st.sampled_from([False, False, True])):      # an index of which all fields but a few have been superseded
        fam = FAMS[c["fam"]]; base = c["pool"][0]; ks = fam.branches[base[0]]; n = len(c["pool"])
        one = st.tuples(*[st.integers(-1 if k[2] else 0, len(k[3]) - 1) if k[0] == 2 else st.just(base[1 + j]) for j, k in enumerate(ks)]).map(lambda t: [base[0], *t])
        sib = draw(st.lists(one, min_size=2, max_size=7, unique_by=tuple)); c["pool"] = c["pool"] + sib; keep = draw(st.lists(st.integers(0, len(sib) - 1), min_size=1, max_size=2))
        new = [["a", 0, n + i, 40 + i] for i in range(len(sib))] + [["c", 0]] + [["a", 1, n + i, 60 + i] for i in range(len(sib)) if i not in keep] + [["c", 1]]
        c["ops"] = new + c["ops"] if draw(st.booleans()) else c["ops"] + [["c", 0]] + new
    c["adopt"] = draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, len(c["pool"]) - 1), min_size=1, max_size=3)))
    c["req"] = draw(st.one_of(st.just(None), sub_requests(FAMS[c["fam"]]))); c["dblevel"] = draw(st.booleans())
    c["after"] = draw(st.lists(st.integers(0, len(c["pool"]) - 1), max_size=2)); c["porc"] = draw(st.booleans())
    return c
class C07(Check):
    prop = "C07"; quick = 3200; thorough = 100000
    rule = ("cases: overwrite histories over several databases and indexes (sub-TOCs, adopted data, indexes of which all fields but one or two are superseded), purged for all or selected databases, dry and confirmed, then purged again and written on; "
            "non-trivial: the confirmed purge removed at least one file while the database kept a visible field")
    def strategy(self): return cases()
    def run(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; removed = False
        with Scratch() as sc:
            w = World(sc, fam, user, env); other = sc.mkdir("elsewhere"); ocfg = config(w.schema, [other])
            try:
                if c["adopt"]:      # data of another archive, made part of this one by reindexing
                    d = w.drv(0); ho = w.name("o"); d.ok("open", h=ho, config=ocfg, user=w.user); w.opened.append((0, "o")); w.sess += 1
                    for j in c["adopt"]:
                        w.pid += 1; k = key_of(fam, c["pool"][j]); i = ident(k); r = Rec(w.pid, 33, w.sess, w.tick()); d.ok("archive", h=ho, key=k, data={"id": r.pid, "len": 33})
                        w.m.levels[i] = levels_of(fam, c["pool"][j]); w.m.kx[i] = c["pool"][j]; w.m.hist[i] = [r]; r.t1 = None
                    d.ok("flush", h=ho); d.ok("open", h=w.name("n"), config=w.cfg, user=w.user, now=w.tick()); d.ok("reindexelem", h=ho, to=w.name("n"), req={}, all=True, now=w.tick()); d.ok("flush", h=w.name("n"), now=w.tick())
                    d.ok("close", h=w.name("n"), now=w.tick()); d.ok("close", h=ho)
                for op in c["ops"]: step(w, c, op)
                w.closeall(); m = w.m
                before = tree(w.roots[0]); outside = tree(other); d, h = w.reader(1); full0 = listing(d, h, None, "full", True); ded0 = listing(d, h, None, "dedup", True)
                if any("data" not in e for e in full0): raise Violation("a listed field cannot be read before any purge")
                md = lambda es: sorted((elem_ident(e), e["ts"], e["path"], e["off"], e["len"], e["data"]["md5"]) for e in es if "data" in e)
                req = c["req"]
                if req is not None and c["dblevel"]: req = {k: v for k, v in req.items() if any(b[0] == 0 and b[1] == k for br in fam.branches for b in br)}
                rk = {"req": req} if req else {"req": {}, "all": True}
                # the model: which copies are superseded, which index they live in, which indexes and files are obsolete
                vis = {elem_ident(e): e for e in ded0}; nd = lambda e: not (elem_ident(e) in vis and all(vis[elem_ident(e)][k] == e[k] for k in ("path", "off", "len", "ts")))
                sel = lambda e: not req or all(k in dict(ident(dict(map(tuple, e["keys"][0])))) and dict(map(tuple, e["keys"][0]))[k] in req[k] for k in req)
                own = lambda e: os.path.dirname(e["path"]).startswith(w.roots[0])
                notimp = lambda x: c["adopt"] and "Not implemented" in str(x.get("what"))       # purging masked adopted data is refused
                for dry in (1, 2):
                    x = d.raw("purge", h=h, doit=False, porcelain=dry == 2, **rk)
                    if not x["ok"] and not req and not notimp(x): raise Violation("a dry purge fails: %s" % x.get("what"))
                    if treediff(before, tree(w.roots[0])): raise Violation("a purge without confirmation changes %s" % show(treediff(before, tree(w.roots[0]))))
                x = d.raw("purge", h=h, doit=True, porcelain=c["porc"], now=w.tick(), **rk); failed = not x["ok"]
                beyond = req and "over-specified" in str(x.get("what"))
                if failed and not beyond and not notimp(x): raise Violation("purge of %s fails: %s" % (req, x.get("what")))
                w.done(d, h); d, h = w.reader(1)
                full1 = listing(d, h, None, "full", True); ded1 = listing(d, h, None, "dedup", True); after = tree(w.roots[0])
                if md(ded0) != md(ded1): raise Violation("purge of %s changes the default listing: %s -> %s" % (req, show(md(ded0), 800), show(md(ded1), 800)))
                if any("data" not in e for e in full1): raise Violation("after the purge a listed field cannot be read")
                gone = Counter(md(full0)); gone.subtract(Counter(md(full1)))
                if -gone: raise Violation("the purge adds listed fields: %s" % show(list((-gone).elements())))
                visfiles = {e["path"] for e in ded0}; diff = treediff(before, after)
                for s, p in diff:
                    ap = os.path.join(w.roots[0], p)
                    if s == "-":
                        removed = True
                        if not (p.endswith(".data") or p.endswith(".index") or os.path.basename(p).startswith("toc.")): raise Violation("the purge removes %s" % p)
                        if ap in visfiles: raise Violation("the purge removes %s, which holds a visible field" % p)
                        dbs = [e for e in full0 if os.path.dirname(e["path"]) == os.path.dirname(ap)]
                        if req and dbs and not any(sel(e) for e in dbs): raise Violation("the purge of %s removes %s of a database that is not selected" % (req, p))
                    elif not (s == "~" and os.path.basename(p).startswith("toc")): raise Violation("the purge changes %s" % ((s, p),))
                if treediff(outside, tree(other)): raise Violation("the purge changes data of another archive")
                if not failed:
                    # superseded copies of an index that holds nothing else are gone from the full listing, as are their files
                    idx = defaultdict(list); unsure = set()
                    for e in full0:
                        r = [r for r in m.hist[elem_ident(e)] if r.n == e["len"] and hashlib.md5(r.data()).hexdigest() == e["data"]["md5"]]
                        gk = [(x.sess, x.t1 if not w.subtoc else 0, elem_levels(e)[:2]) for x in r]
                        if len(r) == 1 and own(e): idx[gk[0]].append(e)
                        else: unsure.update(gk)
                    pos = {x: n for n, x in enumerate(md(full1))}
                    for k, es in idx.items():
                        if k in unsure: continue
                        if all(nd(e) for e in es) and all(sel(e) for e in es):
                            for e in md(es):
                                if e in pos: raise Violation("after the purge the full listing has %s, whose index holds only superseded fields" % (e,))
                        else:
                            for e in md(es):
                                if e not in pos: raise Violation("the purge removes %s from the full listing, whose index holds visible fields" % (e,))
                    for p in {e["path"] for e in full0 if sel(e) and own(e)}:
                        if p not in visfiles and os.path.exists(p): raise Violation("the purge leaves %s, in which no visible field lives" % p)
                for i in sorted(vis)[:5]:
                    if any(set(j) < set(i) for j in vis): continue
                    x = d.ok("retrieve", h=h, req={k: [v] for k, v in i})
                    if x["md5"] != vis[i]["data"]["md5"]: raise Violation("after the purge the retrieval of %s differs" % (i,))
                if not failed:
                    x = d.raw("purge", h=h, doit=True, porcelain=not c["porc"], **rk)
                    if not x["ok"] and not notimp(x): raise Violation("a second purge fails: %s" % x.get("what"))
                    w.done(d, h); d, h = w.reader(1)
                    if md(listing(d, h, None, "full", True)) != md(full1): raise Violation("a second purge changes the listing")
                    if any(s != "~" for s, p in treediff(after, tree(w.roots[0]))): raise Violation("a second purge removes files: %s" % treediff(after, tree(w.roots[0])))
                w.done(d, h)
                for j in c["after"]: w.archive(7, c["pool"][j], 44)
                w.closeall(); d, h = w.reader(1)
                got = {elem_ident(e): (e["data"]["len"], e["data"]["md5"]) for e in listing(d, h, None, "dedup", True)}
                want = {i: (e["len"], e["data"]["md5"]) for i, e in vis.items()}
                for j in c["after"]: i = ident(key_of(fam, c["pool"][j])); r = m.hist[i][-1]; want[i] = (r.n, hashlib.md5(r.data()).hexdigest())
                if got != want: raise Violation("after a purge and new writes the listing has %s, expected %s" % (show(got), show(want)))
                w.done(d, h)
            finally: w.cleanup()
        return {"labels": [fam.name, on] + (["adopted"] if c["adopt"] else []) + (["refused"] if failed else []) + (["removed"] if removed else []), "nontrivial": removed and bool(vis)}
if __name__ == "__main__": main(C07())
