import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
BULK = Fam("bulk", "[a [b [c]]]\n", [[K(0, "a", ["1", "2"]), K(1, "b", ["1", "2"]), K(2, "c", ["%d" % j for j in range(4000)])]])
CF = FAMS + [BULK]
@st.composite
def cases(draw):
    fi = draw(st.integers(0, len(CF) - 1)); fam = CF[fi]; pool = draw(pools(fam, 1, 6)); ix = st.integers(0, len(pool) - 1); w = st.integers(0, 1)
    a = st.tuples(st.just("a"), w, ix, st.one_of(st.integers(1, 60), st.sampled_from([5000, 70000, 2000000])))
    b = st.tuples(st.just("A"), w, ix, st.integers(0, 3000), st.sampled_from([10, 300, 1000])) if fam is BULK else a
    op = st.one_of(a, a, a, b, st.tuples(st.just("f"), w), st.tuples(st.just("f"), w), st.tuples(st.just("c"), w))
    ops = draw(st.lists(op, min_size=1, max_size=10)); k = draw(st.integers(0, len(ops) - 1))
    if draw(st.booleans()): # the last armed operation is the one that matters most: a flush or the end of a session
        ops = ops[:k + 1] + [("a", 0, draw(ix), 50), (draw(st.sampled_from("fc")), 0)]; k = draw(st.integers(k, len(ops) - 1))
    return {"fam": fi, "opt": draw(st.integers(0, len(OPTS) - 1)), "pool": pool, "before": [list(o) for o in draw(st.lists(op, max_size=6))], "ops": [list(o) for o in ops],
            "arm": k, "n": draw(st.one_of(st.integers(1, 12), st.integers(1, 25), st.integers(1, 60))), "torn": draw(st.sampled_from([None, None, 0, 1, 37, 50, 99, 100])),
            "after": [list(o) for o in draw(st.lists(a, min_size=1, max_size=3))], "purge": draw(st.booleans())}
def torn_toc(roots):
    """Does a table of contents end within a record?"""
    for root in roots:
        for dp, dn, fn in os.walk(root):
            for f in fn:
                if not f.startswith("toc"): continue
                b = open(os.path.join(dp, f), "rb").read(); o = 0
                while o < len(b):
                    n = int.from_bytes(b[o + 104:o + 112], "little") if o + 112 <= len(b) else len(b) + 1
                    if n < 112 or o + n > len(b): return True
                    o += n
    return False
class CrashWorld(World):
    def drv(s, slot=0): return driver(s.env, s.kind, slot=slot, exe="vcrash" if slot == 7 else "vdriver")
class C05(Check):
    prop = "C05"; quick = 2600; thorough = 120000; targets = ("vdriver", "vcrash")
    rule = ("cases: sessions of one process, then a process that archives, flushes and closes and is killed at a chosen one of its modifying file operations (create, write, truncate, rename, mkdir, sync, ...), possibly inside a write; "
            "new processes then list, retrieve, write on and purge; non-trivial: the process was killed inside an operation after something had been archived")
    def strategy(self): return cases()
    def run(self, c):
        fam = CF[c["fam"]]; on, user, env = OPTS[c["opt"]]; killed = None; archived = defaultdict(list)
        ids = {}; tt = False
        def put(w, wr, kx, n, slot):
            i = ident(key_of(fam, kx)); ids[i] = kx; r = Rec(w.pid + 1, n, 0, 0); archived[i].append(r.data()); w.archive(wr, kx, n, slot)
        def bulk(w, wr, kx, lo, cnt, slot):
            ws = w.writer(wr, slot); items = []
            for j in range(lo, min(lo + cnt, 4000)):
                kj = kx[:3] + [j]; k = key_of(fam, kj); i = ident(k); w.pid += 1; r = Rec(w.pid, 20, ws["sess"], w.now); ids[i] = kj; archived[i].append(r.data())
                items.append({"key": k, "data": {"id": r.pid, "len": 20}}); w.m.levels[i] = levels_of(fam, kj); w.m.kx[i] = kj; ws["pend"].pop(i, None); ws["pend"][i] = r
            d = w.drv(ws["slot"]); x = d.ok("archiven", h=w.name("w%s" % wr), items=items, now=w.tick())
            if x["errs"]: raise Violation("archiving fails: %s" % show(x["errs"]))
        def do(w, op, slot):
            if op[0] in "aA": exclusive(w, op[1])
            if op[0] == "a": put(w, op[1], c["pool"][op[2]], op[3], slot)
            elif op[0] == "A": bulk(w, op[1], c["pool"][op[2]], op[3], op[4], slot)
            elif op[0] == "f": w.flush(op[1])
            else: w.close(op[1])
        with Scratch() as sc:
            w = CrashWorld(sc, fam, user, env)
            try:
                for op in c["before"]: do(w, op, 0)
                w.closeall()
                d = w.drv(7)
                for n, op in enumerate(c["ops"]):
                    if n == c["arm"]:
                        a = {"n": c["n"]}
                        if c["torn"] is not None: a["torn"] = c["torn"]
                        d.ok("arm", **a)
                    try: do(w, op, 7)
                    except DriverDied:
                        if n < c["arm"] or d.p.poll() != -signal.SIGKILL: raise
                        killed = op; break
                d.kill()
                pend = defaultdict(list)        # what the dead process may or may not have made visible
                for x in w.w.values():
                    for i, r in x["pend"].items(): pend[i].append(r.data())
                if killed and killed[0] == "A": pend = {i: archived[i] for i in archived}
                if killed and killed[0] == "a": i = ident(key_of(fam, c["pool"][killed[2]])); pend[i] = archived[i]
                if w.subtoc: pend = {i: archived[i] for i in archived}      # masking a sub-TOC exposes it as a whole
                w.w = {}
                tt = torn_toc(w.roots)
                com = {i: r.data() for i, r in w.m.visible().items()}; self.look(w, com, pend, archived, ids, "after the crash", c)
                cur = {}
                for op in c["after"]:
                    put(w, 5, c["pool"][op[2]], op[3], 3); i = ident(key_of(fam, c["pool"][op[2]])); cur[i] = archived[i][-1]
                w.flush(5); com.update(cur); pend = {i: v for i, v in pend.items() if i not in cur}
                self.look(w, com, pend, archived, ids, "after new writes", c)
                w.close(5)
                if c["purge"]:
                    h = w.name("p"); d = w.drv(1); d.ok("open", h=h, config=w.cfg); d.ok("purge", h=h, req={}, all=True, doit=True); d.ok("close", h=h)
                    self.look(w, com, pend, archived, ids, "after a purge", c)
            except (Violation, DriverDied) as v:
                if killed and tt: raise Violation(str(v), sig="torn-toc-record")
                raise
            finally:
                close = [p for p in w.opened if p[0] != 7]; w.opened = close; w.cleanup()
        return {"labels": [fam.name, on, "killed in " + killed[0] if killed else "killed idle"] + (["torn"] if c["torn"] is not None else []), "nontrivial": bool(killed and archived)}
    def look(self, w, com, pend, archived, ids, when, c):
        d, h = w.reader(1)
        for e in listing(d, h, None, "full", True):
            i = elem_ident(e)
            if "data" not in e: raise Violation("%s: a listed field cannot be read: %s" % (when, show(e)))
            if rbytes(e["data"]) not in archived.get(i, []) and (e["data"]["len"], e["data"]["md5"]) not in [(len(b), hashlib.md5(b).hexdigest()) for b in archived.get(i, [])]:
                raise Violation("%s: %s is listed with %d bytes never archived under it" % (when, i, e["data"]["len"]))
        got = {elem_ident(e): e["data"] for e in listing(d, h, None, "dedup", True)}
        for i in com:
            ok = [com[i]] + list(pend.get(i, []))
            if i not in got: raise Violation("%s: flushed field %s is lost" % (when, i))
            if not any(same(got[i], b) for b in ok): raise Violation("%s: %s is listed with %s, flushed was %s" % (when, i, show(got[i]), show(com[i][:30])))
        for i in got:
            if i not in com and not any(same(got[i], b) for b in pend.get(i, [])): raise Violation("%s: %s is visible but was not pending" % (when, i))
        for n, i in enumerate(sorted(com)):
            if n % max(1, len(com) // 6) or any(set(j) < set(i) for j in ids): continue
            x = d.ok("retrieve", h=h, req={k: [v] for k, v in i})
            if (x["len"], x["md5"]) != (got[i]["len"], got[i]["md5"]): raise Violation("%s: retrieval of %s gives %s, the listing has %s" % (when, i, show(x), show(got[i])))
        for n, i in enumerate(sorted(set(ids) - set(com))):     # never committed: there or not, but no failure
            if n > 5 or any(set(j) < set(i) for j in ids): continue
            x = d.ok("retrieve", h=h, req={k: [v] for k, v in i})
            if x["len"] and not any(same(x, b) for b in pend.get(i, [])): raise Violation("%s: retrieval of %s gives %s, which was not pending" % (when, i, show(x)))
        d.ok("axes", h=h, req={}, all=True); d.ok("stats", h=h, req={}, all=True); d.ok("status", h=h, req={}, all=True)
        w.done(d, h)
if __name__ == "__main__": main(C05())
