import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
import random
FI = [0, 1, 2, 5]; CHARS = ["alt", "alt", "paren", "anch", "any", "dot"]
def expr(rn, fam):
    """A condition: [keyword, regular expression] pairs. The expressions are searched for in the value, as documented ones such as xx.?.? are."""
    names = defaultdict(list)
    for br in fam.branches:
        for k in br: names[k[1]] += k[3]
    r = []; db = sorted({k[1] for br in fam.branches for k in br if k[0] == 0})
    for k in rn.sample(sorted(names) if rn.random() < .4 else db, rn.choice([1, 1, 2])):
        vs = sorted(set(names[k])); pick = rn.sample(vs, rn.randint(1, max(1, len(vs) - 1))); form = rn.choice(CHARS)
        alt = "|".join(v.replace(".", "[.]") for v in pick); r.append([k, {"any": ".*", "dot": "^" + "." * len(pick[0]) + "$", "alt": alt if len(pick) == 1 else "(%s)" % alt, "paren": "(%s)" % alt, "anch": "^(%s)$" % alt}[form]])
    return r
def lanes(rn, fam, depth=0):
    n = rn.choice([1, 2, 2, 3, 3, 4]); r = []
    for j in range(n):
        l = {"select": expr(rn, fam) if j < n - 1 or rn.random() < .3 else catchall(fam), "excludes": [expr(rn, fam) for _ in range(rn.choice([1, 1, 2]))] if rn.random() < .25 else []}
        if depth == 0 and rn.random() < .2: l["fdbs"] = lanes(rn, fam, 1)
        r.append(l)
    return r
def catchall(fam):
    k = next(k for k in fam.branches[0] if not k[2]); return [[k[1], ".*"]]
@st.composite
def cases(draw):
    fi = draw(st.sampled_from(FI)); fam = FAMS[fi]; pool = draw(pools(fam, 4, 8, (0, 0, 1))); ix = st.integers(0, len(pool) - 1); wr = st.integers(0, 1)
    op = st.one_of(*[st.tuples(st.just("a"), wr, ix, st.integers(1, 300))] * 5, st.tuples(st.just("f"), wr), st.tuples(st.just("c"), wr), st.tuples(st.just("q"), st.lists(ix, min_size=1, max_size=3, unique=True)), st.tuples(st.just("l"), st.integers(0, 9)))
    return {"fam": fi, "opt": draw(st.sampled_from([0, 2, 3])), "pool": pool, "lanes": lanes(random.Random(draw(st.integers(0, 2 ** 32))), fam), "reqs": draw(st.lists(sub_requests(fam), min_size=1, max_size=3)), "ops": [list(o) for o in draw(st.lists(op, min_size=4, max_size=22))],
            "wipe": draw(st.sampled_from([-1, 0, 1])), "purge": draw(st.booleans()), "lock": draw(st.sampled_from([-1, 0, 1, 2]))}
def cond(e, key): return all(k in key and re.search(rx, key[k]) for k, rx in e)
class C19(Check):
    prop = "C19"; quick = 1300; thorough = 50000
    rule = ("cases: archives composed of one to four lanes (regular expressions on one or two keywords of any level, excludes, nested compositions, overlapping and incomplete lanes), written by two writers and queried like a single archive; "
            "non-trivial: fields went to at least two lanes, or a field was refused")
    def strategy(self): return cases()
    def run(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; labels = {fam.name, on}; used = set(); refused = 0
        with Scratch() as sc:
            w = World(sc, fam, user, env, nroots=0); roots = {}
            def conf(ls, path):
                out = []
                for j, l in enumerate(ls):
                    p = path + (j,); x = {"select": ",".join("%s=%s" % (k, rx) for k, rx in l["select"])}
                    if l["excludes"]: x["excludes"] = [",".join("%s=%s" % (k, rx) for k, rx in e) for e in l["excludes"]]
                    if "fdbs" in l: x.update(type="select", fdbs=conf(l["fdbs"], p)); labels.add("nested")
                    else: roots[p] = sc.mkdir("lane" + "-".join(map(str, p))); x.update(type="local", engine="toc", spaces=[{"handler": "Default", "roots": [{"path": roots[p]}]}])
                    out.append(x)
                return out
            w.cfg = json.dumps({"type": "select", "schema": w.schema, "fdbs": conf(c["lanes"], ())})
            def target(key, ls=None, path=()):
                for j, l in enumerate(c["lanes"] if ls is None else ls):
                    if cond(l["select"], key) and not any(cond(e, key) for e in l["excludes"]): return target(key, l["fdbs"], path + (j,)) if "fdbs" in l else path + (j,)
                return None
            def check(req):
                d, h = w.reader(); vis = {i: r for i, r in w.m.visible().items() if selected(i, req)}
                es = listing(d, h, req, "dedup", True); got = Counter(elem_ident(e) for e in es)
                if got != Counter(list(vis)): raise Violation("listing of %s over lanes %s: %s; expected %s" % (req, w.cfg, show(sorted(got.elements())), show(sorted(vis))))
                for e in es:
                    i = elem_ident(e); lane = roots[target(dict(i))]
                    if "data" not in e or not same(e["data"], vis[i].data()): raise Violation("field %s of the listing of %s is not the last archived" % (i, req))
                    if not e["path"].startswith(lane + "/"): raise Violation("field %s is in %s, its lane is %s" % (i, e["path"], lane))
                full = listing(d, h, req, "full"); n = sum(len(hs) for i, hs in w.m.hist.items() if selected(i, req))
                if len(full) != n: raise Violation("full listing of %s has %d fields, archived were %d" % (req, len(full), n))
                if not req:
                    s = d.ok("stats", h=h, req={}, all=True)["elems"]
                    if sum(x["fields"] for x in s) != n: raise Violation("statistics count %d fields, archived were %d" % (sum(x["fields"] for x in s), n))
                    ax = d.ok("axes", h=h, req={}, all=True, level=3)["axes"]; want = defaultdict(set)
                    for i in vis:
                        for k, v in i: want[k].add(v)
                    may = {k: set(v) for k, v in want.items()}
                    for lv in w.m.levels.values():      # a database is there from its first archive on
                        for k, v in lv[0].items(): may.setdefault(k, set()).add(v)
                    if any(v - set(ax.get(k, [])) for k, v in want.items()) or any(set(v) - {""} - may.get(k, set()) for k, v in ax.items()): raise Violation("axes are %s, expected %s" % (ax, dict(want)))
                    dbs = {(roots[target(dict(i))], ident(w.m.levels[i][0])) for i in w.m.visible()}
                    stt = {(os.path.dirname(x["loc"]), ident(dict(map(tuple, x["key"])))) for x in d.ok("status", h=h, req={}, all=True)["elems"]}
                    if not (dbs <= stt): raise Violation("status lacks %s" % (dbs - stt))
                w.done(d, h)
            try:
                for op in c["ops"]:
                    if op[0] == "a":
                        key = key_of(fam, c["pool"][op[2]]); t = target(key); exclusive(w, op[1])
                        if t is None:
                            refused += 1; ws = w.writer(op[1]); r = w.drv(ws["slot"]).raw("archive", h=w.name("w%s" % op[1]), key=key, data={"id": 1, "len": 5}, now=w.tick())
                            if r["ok"]: raise Violation("field %s is accepted, though no lane of %s admits it" % (key, w.cfg))
                        else: used.add(t); w.archive(op[1], c["pool"][op[2]], op[3])
                    elif op[0] in "fc": step(w, c, op)
                    elif op[0] == "l": check(c["reqs"][op[1] % len(c["reqs"])] if op[1] < 6 else {})
                    else:
                        vis = w.m.visible(); ids = [ident(key_of(fam, c["pool"][j])) for j in op[1]]; req = one_request(ids); d, h = w.reader()
                        m = matching_retrieve(w, req)
                        if any(set(j) < set(i) or set(i) < set(j) for i in m for j in vis if i != j) or any(set(req) - set(dict(i)) for i in m) or fam.name == "twin": labels.add("ambiguous"); w.done(d, h); continue
                        want = [vis[i].data() for i in m]; r = d.raw("retrieve", h=h, req=req); w.done(d, h)
                        if not want and not r["ok"]: continue
                        if not r["ok"]: raise Violation("retrieval of %s fails: %s" % (req, r["what"]))
                        if not segments(rbytes(r), want): raise Violation("retrieval of %s gives %d bytes, expected the %d fields %s of %d" % (req, r["len"], len(want), m, sum(map(len, want))))
                w.closeall(); check({})
                for r in c["reqs"]: check(r)
                vis = sorted(w.m.visible())
                if c["lock"] >= 0 and vis:      # a lock by database key reaches the database in every lane
                    dbk = dict(ident(w.m.levels[vis[c["lock"] % len(vis)]][0])); d, h = w.reader(2); req = {k: [v] for k, v in dbk.items()}; sel = lambda i: all(dict(i).get(k) == v for k, v in dbk.items()); labels.add("lock")
                    d.ok("control", h=h, req=req, action="disable", ids=["list"]); w.done(d, h); d, h = w.reader(3); got = {elem_ident(e) for e in listing(d, h)}
                    d.ok("control", h=h, req=req, action="enable", ids=["list"]); w.done(d, h)
                    over = {i for i in vis if all(dict(ident(w.m.levels[i][0])).get(k, v) == v for k, v in dbk.items())}
                    if not ({i for i in vis if i not in over} <= got <= {i for i in vis if not sel(i)}): raise Violation("after locking %s for listing %s are listed of %s" % (dbk, sorted(got), vis))
                    check({})
                if c["purge"] and vis:
                    d, h = w.reader(2); before = {elem_ident(e): (e["path"], e["off"]) for e in listing(d, h)}; d.ok("purge", h=h, doit=True, req={}, all=True, now=w.tick()); w.done(d, h); d, h = w.reader(3); labels.add("purge")
                    if {elem_ident(e): (e["path"], e["off"]) for e in listing(d, h)} != before: raise Violation("purge of all lanes changes the listing")
                    w.done(d, h)
                if c["wipe"] >= 0 and vis:
                    dbk = dict(ident(w.m.levels[vis[c["wipe"] % len(vis)]][0])); d, h = w.reader(2); req = {k: [v] for k, v in dbk.items()}; labels.add("wipe")
                    if all(ident(w.m.levels[i][0]) == ident(dbk) or any(k in w.m.levels[i][0] and w.m.levels[i][0][k] != v for k, v in dbk.items()) for i in w.m.levels):
                        dry = d.ok("wipe", h=h, req=req, doit=False)["elems"]; d.ok("wipe", h=h, req=req, doit=True); w.done(d, h); d, h = w.reader(3)
                        got = {elem_ident(e) for e in listing(d, h)}; want = {i for i in vis if ident(w.m.levels[i][0]) != ident(dbk)}
                        if got != want: raise Violation("after wiping %s %s are listed, expected %s" % (dbk, sorted(got), sorted(want)))
                    w.done(d, h)
            finally: w.cleanup()
        return {"labels": sorted(labels) + (["refused"] if refused else []) + (["lanes:%d" % len(used)]), "nontrivial": len(used) > 1 or refused > 0}
if __name__ == "__main__": main(C19())
