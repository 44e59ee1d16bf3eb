import sys, os, uuid; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib")); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from world import *
import vf
from c24 import C24
@st.composite
def cases(draw):
    fi = draw(st.sampled_from([i for i, f in enumerate(FAMS) if f.name != "odd"])); fam = FAMS[fi]; pool = draw(pools(fam, 2, 8)); ix = st.integers(0, len(pool) - 1); ixs = st.lists(ix, min_size=1, max_size=4)
    n = st.one_of(st.integers(1, 40), st.integers(1, 3000), st.sampled_from([4096, 65536, 300000])); ops = []
    q = st.one_of(st.tuples(st.just("l"), sub_requests(fam), st.just("dedup"), st.integers(1, 3)), *[st.tuples(st.just("q"), ixs)] * 3, st.tuples(st.just("i"), ixs), st.tuples(st.just("x"), sub_requests(fam), st.integers(1, 3)))      # the emulation is not made for threads
    z = st.one_of(*[st.none()] * 2, st.tuples(st.just("w"), ix, st.integers(0, 1), st.booleans()), st.tuples(st.just("c"), st.integers(0, 1)))
    for _ in range(draw(st.integers(1, 5))):      # one writer per round: what is archived in an object store is visible at once
        w = draw(st.integers(0, 1)); ops += [("a", w, j, m) for j, m in draw(st.lists(st.tuples(ix, n), min_size=1, max_size=6))] + [draw(st.sampled_from([("f", w), ("f", w), ("c", w)]))] + draw(st.lists(q, min_size=1, max_size=5)); y = draw(z)
        if y: ops.append(y)
    return {"fam": fi, "pool": pool, "store": draw(st.sampled_from(["daos", "daos", "file"])), "cat": draw(st.sampled_from(["daos"] * 4 + ["toc"])), "alloc": draw(st.sampled_from([1, 2, 100])), "proc": draw(st.booleans()), "ops": [list(o) for o in ops]}
class C25(C24):
    prop = "C25"; quick = 500; thorough = 20000; targets = ("vdriver",); deterministic = False; other = "in the object store"; after = "dedup"
    rule = ("cases: histories of two clients (in one or two processes) on archives whose catalogue, store or both are in the emulated object store, compared operation by operation with a file archive: archives, overwrites, listings of every depth, inspections, retrievals, axes, dry and confirmed wipes; non-trivial: two queries with results after archives")
    def strategy(self): return cases()
    def run(self, c):
        fam = FAMS[c["fam"]]; labels = {fam.name, c["cat"] + "/" + c["store"]}; results = 0; self.refused = False
        root = os.path.join(scratch_base(), "daos-%d" % os.getpid()); os.makedirs(root, exist_ok=True)
        with Scratch() as sc:
            L = World(sc, fam, {}, {}); R = World(sc, fam, {}, {"DUMMY_DAOS_DATA_ROOT": root}); R.name = lambda h: "%sr%s" % (os.path.basename(sc.d), h)
            pool = "p" + uuid.uuid4().hex; u = str(uuid.uuid4()); os.mkdir(os.path.join(root, u)); os.symlink(os.path.join(root, u), os.path.join(root, pool)); R.roots = [sc.mkdir("rroot")]
            R.cfg = config(R.schema, R.roots, engine=c["cat"], store=c["store"], daos={"catalogue": {"pool": pool, "root_cont": "rc"}, "store": {"pool": pool}, "client": {"container_oids_per_alloc": c["alloc"]}})
            try:
                for op in c["ops"]:
                    try: results += self.op(c, fam, L, R, op, labels)
                    except Violation as v: raise Violation(v.msg, sig="stale-container" if c.get("stay") and op[0] == "q" else v.sig)
                L.closeall(); R.closeall(); results += self.op(c, fam, L, R, ["l", {}, "dedup", 3], labels)
            finally:
                R.cleanup(); L.cleanup(); shutil.rmtree(os.path.join(root, u), ignore_errors=True); os.unlink(os.path.join(root, pool))
        return {"labels": sorted(labels), "nontrivial": results > 1}
    def op(self, c, fam, L, R, op, labels):
        if op[0] in "qi":      # whether a field is found by a request naming a keyword it lacks is left open
            req = self.request(fam, L, c["pool"], op[1])
            if any(k not in dict(i) and k in req for i, lv in L.m.levels.items() if L.m.hist[i] for k in [x[1] for x in fam.branches[L.m.kx[i][0]] if x[0] == 2]): return 0
        if op[0] == "x" or op[0] == "l" and op[3] < 3:      # as is whether an index without a keyword is one that may have it
            opt = {x[1] for b in fam.branches for x in b if x[0] == 2 and x[2]}; op = list(op); op[1] = {k: v for k, v in op[1].items() if k not in opt}
        if op[0] == "x":
            _, req, lev = op; q = {"req": req} if req else {"req": {}, "all": True}
            a = self.both(L, R, "axes of %s at level %d" % (req, lev), lambda w, d, h: d.raw("axes", h=h, level=lev, **q), lambda x: {n: sorted(set(v) - {""}) for n, v in x["axes"].items() if set(v) - {""}}); labels.add("axes"); return bool(a)
        if op[0] == "w" and op[3]:      # processes keep containers open: new ones after a wipe (known finding otherwise)
            if not c.get("stay"):
                try: r = super().op(c, fam, L, R, op, labels)
                except Violation as v:
                    over = any(len({x.sess for x in h}) > 1 for h in L.m.hist.values()) and c["cat"] == "daos" and c["store"] == "file"
                    raise Violation(v.msg, sig="orphan-file") if over and "Cannot fully wipe unclean" in v.msg else v
                R.cleanup(); R.opened.clear()
                for k in list(vf._pool):
                    if "DUMMY_DAOS" in k[0]: vf._pool.pop(k).close()
                return r
        return super().op(c, fam, L, R, op, labels)
if __name__ == "__main__": main(C25())
