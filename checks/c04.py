import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
@st.composite
def cases(draw):
    fi = draw(st.integers(0, len(FAMS) - 1)); pool = draw(pools(FAMS[fi], 1, 4)); ix = st.integers(0, len(pool) - 1); w = st.integers(0, 1); rd = st.integers(0, 1)
    a = st.tuples(st.just("a"), w, ix, SIZES)
    ops = draw(st.lists(st.one_of(a, a, a, st.tuples(st.just("f"), w), st.tuples(st.just("f"), w), st.tuples(st.just("c"), w), st.tuples(st.just("o"), rd), st.tuples(st.just("r"), rd, ix), st.tuples(st.just("r"), rd, ix),
                                  st.tuples(st.just("l"), rd), st.tuples(st.just("x"), ix)), min_size=8, max_size=36))
    return {"fam": fi, "opt": draw(st.integers(0, len(OPTS) - 1)), "proc": draw(st.booleans()), "rslot": draw(st.integers(0, 1)), "pool": pool, "ops": [list(o) for o in ops]}
class C04(Check):
    prop = "C04"; quick = 6000; thorough = 80000
    rule = ("cases: histories of up to two writers (one or several processes) interleaved with readers that are opened at arbitrary points, stay open over later flushes, and retrieve or list, and new readers that check one field; "
            "non-trivial: a new reader looks while a field is archived but not flushed, or an old reader looks after a later flush of what it sees")
    def strategy(self): return cases()
    def run(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; nt = set()
        ids = [ident(key_of(fam, k)) for k in c["pool"]]
        amb = {i for i in ids if any(set(j) < set(i) for j in ids)}      # a retrieval may fall back to a field without the optional keyword (C01): only listed
        with Scratch() as sc:
            w = World(sc, fam, user, env); allv = defaultdict(list); R = {}; seen = {}     # allv: every value ever flushed, in order
            def sync():
                for i, h in w.m.hist.items():
                    for r in h:
                        if r not in allv[i]: allv[i].append(r)
            def allowed(rd, i):
                """What an open reader may see: not older than at its first look, and only what was flushed."""
                k = seen[rd].get(i)
                if k is None: return [r.data() for r in allv[i]] + [b""]
                return [r.data() for r in allv[i][k:]]
            def got(rd, i, data, what):
                ok = allowed(rd, i)
                if data not in ok:
                    pend = [r.data() for x in w.w.values() for j, r in x["pend"].items() if j == i]
                    raise Violation("%s of %s by an open reader gives %s, allowed: %s%s" % (what, i, show(data[:40]), [x[:20] for x in ok], " (archived but not flushed!)" if data in pend else ""))
            try:
                for op in c["ops"]:
                    if step(w, c, op): sync(); continue
                    if op[0] == "o":
                        if op[1] in R: w.done(*R[op[1]])
                        R[op[1]] = w.reader(c["rslot"]); seen[op[1]] = {i: len(h) - 1 for i, h in allv.items() if h}
                    elif op[0] == "r" and op[1] in R:
                        k = key_of(fam, c["pool"][op[2]]); i = ident(k); d, h = R[op[1]]
                        if i in amb: continue
                        x = rbytes(d.ok("retrieve", h=h, req={a: [b] for a, b in k.items()})); got(op[1], i, x, "retrieval")
                        if allv[i] and x != allv[i][-1].data(): nt.add("old")
                        elif seen[op[1]].get(i) is not None and len(allv[i]) - 1 > seen[op[1]][i]: nt.add("old")
                        if x: seen[op[1]][i] = max(seen[op[1]].get(i, 0), min(j for j, r in enumerate(allv[i]) if r.data() == x))
                    elif op[0] == "l" and op[1] in R:
                        d, h = R[op[1]]; es = listing(d, h, read=True); by = {elem_ident(e): e for e in es}
                        for i, e in by.items():
                            if "data" not in e: raise Violation("element %s listed by an open reader cannot be read: %s" % (i, show(e)))
                            got(op[1], i, rbytes(e["data"]), "listing")
                        for i in seen[op[1]]:
                            if i not in by: raise Violation("%s was visible when the reader was opened and is not listed by it" % (i,))
                    elif op[0] == "x":
                        d, h = w.reader(c["rslot"]); k = key_of(fam, c["pool"][op[1]]); i = ident(k)
                        x = rbytes(d.ok("retrieve", h=h, req={a: [b] for a, b in k.items()})) if i not in amb else None; want = w.m.hist[i][-1].data() if w.m.hist[i] else b""
                        pend = [r.data() for y in w.w.values() for j, r in y["pend"].items() if j == i]
                        if i not in amb and x != want: raise Violation("a new reader retrieves %s for %s, the last flushed value is %s%s" % (show(x[:40]), i, show(want[:40]), " (archived but not flushed!)" if x in pend else ""))
                        es = listing(d, h, read=True); vis = w.m.visible(); by = {elem_ident(e): e["data"]["md5"] for e in es}
                        if by != {j: hashlib.md5(r.data()).hexdigest() for j, r in vis.items()}: raise Violation("a new reader lists %s, flushed is %s" % (show(sorted(by)), show(sorted(vis))))
                        w.done(d, h)
                        if any(y["pend"] for y in w.w.values()): nt.add("unflushed")
            finally: w.cleanup()
        return {"labels": [fam.name, on] + sorted(nt), "nontrivial": bool(nt)}
if __name__ == "__main__": main(C04())
