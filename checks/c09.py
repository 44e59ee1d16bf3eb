import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
IDS = ["list", "retrieve", "archive", "wipe", "uniqueroot"]
@st.composite
def cases(draw):
    fi = draw(st.integers(0, len(FAMS) - 1)); fam = FAMS[fi]; pool = draw(pools(fam, 1, 5, (0, 0, 1, 2))); ix = st.integers(0, len(pool) - 1)
    @st.composite
    def sel(draw):
        kx = pool[draw(ix)]; r = {}
        for k, i in zip(fam.branches[kx[0]], kx[1:]):
            if k[0] > 0 and draw(st.integers(0, 11)): continue
            if draw(st.integers(0, 4)) == 0 or (i < 0 and draw(st.integers(0, 4))): continue
            r[k[1]] = sorted({k[3][i]} | (set(k[3]) if draw(st.integers(0, 4)) == 0 else set()))
        return r
    ops = draw(st.lists(st.one_of(st.tuples(st.just("a"), ix, st.integers(3, 300)), st.tuples(st.just("a"), ix, st.integers(3, 300)), st.tuples(st.just("l"), sel(), st.booleans(), st.lists(st.sampled_from(IDS), min_size=1, max_size=4, unique=True)),
                                  st.tuples(st.just("l"), sel(), st.booleans(), st.lists(st.sampled_from(IDS), min_size=1, max_size=4, unique=True)), st.just(("v",)), st.tuples(st.just("p"), st.sampled_from(["purge", "wipe", "dry"]))), min_size=3, max_size=14))
    return {"fam": fi, "opt": draw(st.integers(0, len(OPTS) - 1)), "pool": pool, "ops": [["a", j, 50 + j] for j in range(len(pool))] + [list(o) for o in ops] + [["v"]]}
class C09(Check):
    prop = "C09"; quick = 3000; thorough = 90000
    rule = ("cases: sequences of locking and unlocking (any subset of the operations, any selection of databases) interleaved with archiving, listing, retrieving, purging and wiping by new sessions in several processes; "
            "non-trivial: some operation was refused or skipped for a locked database while it worked for another one or later")
    def strategy(self): return cases()
    def run(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; hit = set(); n = 0
        with Scratch() as sc:
            w = World(sc, fam, user, env); m = w.m; off = defaultdict(set); root = w.roots[0]; db = lambda i: ident(m.levels[i][0])
            def locked(i, what): return what in off[db(i)]
            try:
                for op in c["ops"]:
                    n += 1
                    if op[0] == "a":
                        kx = c["pool"][op[1]]; i = ident(key_of(fam, kx)); l0 = ident(levels_of(fam, kx)[0]); slot = 2 * (n % 2)
                        if "archive" in off[l0]:
                            before = tree(root); d = w.open("x%d" % n, slot); h = w.name("x%d" % n)
                            x = d.raw("archive", h=h, key=key_of(fam, kx), data={"id": 9999, "len": op[2]}); d.raw("flush", h=h); d.ok("close", h=h)
                            if x["ok"]: raise Violation("archiving into %s succeeds although it is locked" % (l0,))
                            if treediff(before, tree(root)): raise Violation("archiving into a locked database changes %s" % treediff(before, tree(root)))
                            hit.add("archive")
                        else: w.archive(0, kx, op[2], slot); w.close(0)
                    elif op[0] == "l":
                        _, sel, enable, ids = op; before = tree(root); d, h = w.reader(1)
                        rk = {"req": sel} if sel else {"req": {}, "all": True}
                        x = d.ok("control", h=h, action="enable" if enable else "disable", ids=ids, **rk)["elems"]; w.done(d, h)
                        dbs = {db(i) for i in m.hist if m.hist[i]}
                        chosen = {b for b in dbs if all(k in dict(b) and dict(b)[k] in v for k, v in sel.items())}
                        for b in chosen: off[b] = off[b] - set(ids) if enable else off[b] | set(ids)
                        got = sorted(ident(dict(map(tuple, e["key"]))) for e in x)
                        if got != sorted(chosen): raise Violation("%s of %s on %s reports %s, expected %s" % ("enabling" if enable else "disabling", ids, sel, got, sorted(chosen)))
                        for e in x:
                            want = set(IDS) - off[ident(dict(map(tuple, e["key"])))]
                            if set(e["enabled"]) != want: raise Violation("after %s of %s on %s the operation reports %s enabled, expected %s" % ("enabling" if enable else "disabling", ids, sel, e["enabled"], sorted(want)))
                        for s, p in treediff(before, tree(root)):
                            if not (p.endswith(".lock") or p.endswith("duplicates.allow")): raise Violation("locking changes %s" % ((s, p),))
                    elif op[0] == "v": self.look(w, off, db, hit)
                    else:
                        d, h = w.reader(1); before = tree(root); doit = op[1] != "dry"; names = {}
                        for e in d.ok("status", h=h, req={}, all=True)["elems"]: names[os.path.basename(e["loc"])] = ident(dict(map(tuple, e["key"])))
                        x = d.ok("purge", h=h, req={}, all=True, doit=True) if op[1] == "purge" else d.raw("wipe", h=h, req={}, all=True, doit=doit)
                        refused = not x["ok"]      # a wipe that meets a database locked for wiping is refused, and may have wiped others before
                        if refused and not any("wipe" in off[b] for b in names.values()): raise Violation("a %s fails: %s" % (op[1], x.get("what")))
                        if refused: hit.add("wipe refused"); x = {"elems": []}
                        w.done(d, h); said = {os.path.basename(os.path.dirname(u)) for e in x["elems"] if isinstance(e, dict) for u in e["uris"]}
                        for s, p in treediff(before, tree(root)):
                            b = names.get(p.split("/")[0])
                            if b is not None and "wipe" in off[b]: raise Violation("a %s changes %s of a database locked for wiping" % (op[1], p))
                        for b in {db(i) for i in m.hist}:
                            name = [k for k, v in names.items() if v == b]
                            if "wipe" in off[b]:
                                hit.add("wipe")
                                if name and name[0] in said: raise Violation("a %s reports the database %s, which is locked for wiping" % (op[1], b))
                            elif op[1] == "purge":      # every session wrote one field: superseded copies are purged
                                for i in m.hist:
                                    if db(i) == b: del m.hist[i][:-1]
                            elif op[1] == "wipe" and b in names.values():
                                if os.path.exists(os.path.join(root, name[0])):
                                    if refused: continue
                                    raise Violation("a wipe leaves the unlocked database %s" % (b,))
                                off[b] = set()
                                for i in list(m.hist):
                                    if db(i) == b: del m.hist[i]
                self.look(w, off, db, hit)
            finally: w.cleanup()
        return {"labels": [fam.name, on] + ["refused " + x for x in sorted(hit)], "nontrivial": bool(hit)}
    def look(self, w, off, db, hit):
        m = w.m; vis = {i: h[-1] for i, h in m.hist.items() if h}
        d, h = w.reader(1)
        st_ = {ident(dict(map(tuple, e["key"]))): set(e["enabled"]) for e in d.ok("status", h=h, req={}, all=True)["elems"]}
        want = {db(i): set(IDS) - off[db(i)] for i in vis}
        if st_ != want: raise Violation("the status is %s, expected %s" % (st_, want))
        for mode in ("dedup", "full"):
            got = Counter((elem_ident(e), e["data"]["len"], e["data"]["md5"]) for e in listing(d, h, None, mode, True))
            exp = Counter((i, r.n, hashlib.md5(r.data()).hexdigest()) for i in vis if "list" not in off[db(i)] for r in (m.hist[i] if mode == "full" else [vis[i]]))
            if got != exp: raise Violation("with locks %s the %s listing has %s more and %s less than expected" % (dict(off), mode, show(list((got - exp).elements())), show(list((exp - got).elements()))))
        for i in vis:
            if "list" in off[db(i)]: hit.add("list")
            if any(set(j) < set(i) for j in vis): continue
            req = {k: [v] for k, v in i}; x = d.ok("retrieve", h=h, req=req); y = d.ok("inspect", h=h, req=req)["elems"]
            if "retrieve" in off[db(i)]:
                hit.add("retrieve")
                if x["len"] or any(elem_ident(e) == i for e in y): raise Violation("%s is retrieved although its database is locked" % (i,))
            elif not same(x, vis[i].data()) or not any(elem_ident(e) == i for e in y): raise Violation("with locks %s the retrieval of %s gives %s" % (dict(off), i, show(x)))
        w.done(d, h)
if __name__ == "__main__": main(C09())
