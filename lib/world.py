"""Reference model of an archive and the machinery to run a generated history against the real one."""
import json, os, time
from collections import defaultdict, OrderedDict
from vf import *
import hypothesis.strategies as st

# A schema family: text, keywords per branch [(level, name, optional, [values])]; every branch has db, index, datum level.
class Fam:
    def __init__(s, name, text, branches): s.name = name; s.text = text; s.branches = branches
def K(level, name, vals, opt=False): return (level, name, opt, vals)
V4 = ["1", "22", "abc", "x-y"]
ODD = ["x#y","a?b","50%25","a b","[x]","{x}","a=b","a,b","a+b","-x","*","a%20b","a@b","'q\"","a\\b","(.)|$"]     # not: colon (separator of the fingerprints, but for quantile), slash, leading tilde
FAMS = [
 Fam("plain", "[a, b, c?\n [d, e?\n  [f, g?, i?, h]]]\n",
     [[K(0,"a",["1","abc","a1"]), K(0,"b",["x","y"]), K(0,"c",["z","1"],True), K(1,"d",["q","1","dd"]), K(1,"e",["e1","x"],True),
       K(2,"f",["0","1","10","f.f"]), K(2,"g",["1","g2"],True), K(2,"i",["1"],True), K(2,"h",["1","2","3"])]]),
 Fam("branch", "[cl=od/rd, ex, st=oper\n [ty, lt=sfc [par, step]]\n [ty, lt=pl [par, lev, step]]]\n[cl=od/rd, ex, st=enfo, dt\n [ty, lt? [par, num, step?]]]\n[cl, ex\n [ty [par]]]\n",
     [[K(0,"cl",["od","rd"]), K(0,"ex",["0001","xxxx"]), K(0,"st",["oper"]), K(1,"ty",["an","fc"]), K(1,"lt",["sfc"]), K(2,"par",["129","130","t"]), K(2,"step",["0","6","12"])],
      [K(0,"cl",["od","rd"]), K(0,"ex",["0001","xxxx"]), K(0,"st",["oper"]), K(1,"ty",["an","fc"]), K(1,"lt",["pl"]), K(2,"par",["129","130","t"]), K(2,"lev",["100","850"]), K(2,"step",["0","6","12"])],
      [K(0,"cl",["od","rd"]), K(0,"ex",["0001","xxxx"]), K(0,"st",["enfo"]), K(0,"dt",["20200101","20200102"]), K(1,"ty",["an","pf"]), K(1,"lt",["sfc","pl"],True), K(2,"par",["129","130"]), K(2,"num",["1","2","10"]), K(2,"step",["0","6"],True)],
      [K(0,"cl",["ti","e5"]), K(0,"ex",["0001","xxxx"]), K(1,"ty",["an","fc"]), K(2,"par",["129","130","t"])]]),
 Fam("mars", "param:Param;\nstep:Step;\ndate:Date;\ntime:Time;\nlevelist:Double;\nnumber:Integer;\nexpver:Expver;\n[class, expver, date, time, domain?\n [type, levtype\n  [step, levelist?, param, number?]]]\n",
     [[K(0,"class",["od","rd"]), K(0,"expver",["0001","abcd"]), K(0,"date",["20200101","20210228"]), K(0,"time",["0000","1200"]), K(0,"domain",["g"],True), K(1,"type",["an","fc"]), K(1,"levtype",["pl","sfc"]),
       K(2,"step",["0","12","240"]), K(2,"levelist",["500","0.5"],True), K(2,"param",["130","157"]), K(2,"number",["1","20"],True)]]),
 Fam("wide", "[a, b\n [c\n  [k1, k2?, k3?, k4, k5, k6, k7, k8, k9?]]]\n",
     [[K(0,"a",["1","2"]), K(0,"b",["u","v"]), K(1,"c",["i","j"]), K(2,"k1",["1","2"]), K(2,"k2",["p"],True), K(2,"k3",["1"],True), K(2,"k4",["4","44"]), K(2,"k5",["5"]), K(2,"k6",["long-value-6"]), K(2,"k7",["0.001"]), K(2,"k8",["8","88"]), K(2,"k9",["9"],True)]]),
 Fam("eight", "[a, b=u\n [c\n  [k1, k2, k3, k4, k5, k6, k7, k8]]]\n[a, e=v\n [c\n  [k1, k2, k3, k4, k5, k6, k7]]]\n",
     [[K(0,"a",["1","2"]), K(0,"b",["u"]), K(1,"c",["i","j"]), K(2,"k1",["1","2"]), K(2,"k2",["p","long2"]), K(2,"k3",["1"]), K(2,"k4",["4","44"]), K(2,"k5",["long-5"]), K(2,"k6",["long-value-6"]), K(2,"k7",["0.001"]), K(2,"k8",["8","88"])],
      [K(0,"a",["1","2"]), K(0,"e",["v"]), K(1,"c",["i","j"]), K(2,"k1",["1","2"]), K(2,"k2",["p"]), K(2,"k3",["1"]), K(2,"k4",["4","44"]), K(2,"k5",["5"]), K(2,"k6",["long-value-six"]), K(2,"k7",["0.001"])]]),
 Fam("twin", "[a?, b?, c\n [d?, e?, f\n  [g?, h?, i]]]\n",
     [[K(0,"a",["1","2"],True), K(0,"b",["1","2"],True), K(0,"c",["1","2"]), K(1,"d",["1","2"],True), K(1,"e",["1","2"],True), K(1,"f",["1","2"]), K(2,"g",["1","2"],True), K(2,"h",["1","2"],True), K(2,"i",["1","2"])]]),
 Fam("odd", "[a, b?\n [c\n  [d, quantile?, e]]]\n",
     [[K(0,"a",ODD),K(0,"b",ODD[:5],True),K(1,"c",ODD),K(2,"d",ODD),K(2,"quantile",["1:5","5:10","2"],True),K(2,"e",ODD)]]),
]
def key_strategy(fam, focus=None):
    """An identifier as [branch, i0, i1, ...] (value index per keyword, -1 absent). Small spaces so that overwrites are common."""
    def one(bi):
        ks = fam.branches[bi]
        return st.tuples(st.just(bi), *[st.integers(-1 if k[2] else 0, len(k[3]) - 1) if len(k[3]) > 1 or k[2] else st.just(0) for k in ks]).map(list)
    return st.integers(0, len(fam.branches) - 1).flatmap(one)
@st.composite
def pools(draw, fam, min_size=1, max_size=8, shares=(0, 1, 2)):
    """Identifiers of a history: unrelated ones, or ones that share a database, or an index, with a first one."""
    share = draw(st.sampled_from(shares))
    if not share: return draw(st.lists(key_strategy(fam), min_size=min_size, max_size=max_size))
    base = draw(key_strategy(fam)); ks = fam.branches[base[0]]
    free = [j for j, k in enumerate(ks) if k[0] >= share]
    one = st.tuples(*[st.integers(-1 if k[2] else 0, len(k[3]) - 1) if j in free else st.just(base[1 + j]) for j, k in enumerate(ks)]).map(lambda t: [base[0], *t])
    return [base] + draw(st.lists(one, min_size=max(0, min_size - 1), max_size=max_size - 1))
def key_of(fam, kx):
    return {k[1]: k[3][i] for k, i in zip(fam.branches[kx[0]], kx[1:]) if i >= 0}
def levels_of(fam, kx):
    r = [{}, {}, {}]
    for k, i in zip(fam.branches[kx[0]], kx[1:]):
        if i >= 0: r[k[0]][k[1]] = k[3][i]
    return r
def ident(d): return tuple(sorted((k, v) for k, v in d.items() if v != ""))
def elem_ident(e): return ident({k: v for lv in e["keys"] for k, v in lv})
def elem_levels(e): return tuple(ident(dict(map(tuple, lv))) for lv in e["keys"])
def dbname(fam, kx):
    return ":".join((k[3][i] if i >= 0 else "") for k, i in zip(fam.branches[kx[0]], kx[1:]) if k[0] == 0)

OPTS = [  # (name, user config, env) -- options a site may choose; all must give the same results
 ("default", {}, {}),
 ("subtoc", {"useSubToc": True}, {}),
 ("tocv3", {}, {"FDB5_SERIALISATION_VERSION": "3"}),
 ("tocv1", {}, {"FDB5_SERIALISATION_VERSION": "1"}),
 ("preload", {"preloadTocBTree": True, "preloadBTree": True}, {}),
]
def config(schema, roots, **kw):
    c = {"type": "local", "engine": "toc", "schema": schema, "spaces": [{"handler": "Default", "roots": [{"path": r} for r in roots]}]}
    c.update(kw); return json.dumps(c)

class Model:
    """What a user may rely on: per identifier, the flushed values in the order of their flushes."""
    def __init__(s): s.hist = defaultdict(list); s.levels = {}; s.kx = {}
    def visible(s): return {k: h[-1] for k, h in s.hist.items() if h}
class Rec:
    __slots__ = ("pid", "n", "sess", "t0", "t1", "t2")
    def __init__(s, pid, n, sess, t0): s.pid = pid; s.n = n; s.sess = sess; s.t0 = t0; s.t1 = s.t2 = None
    def data(s): return fill(s.pid, s.n)

class World:
    """Writers in one or more processes on a fresh set of roots, plus the model."""
    def __init__(s, sc, fam, user=None, env=None, cfgextra=None, nroots=1, kind="plain"):
        s.sc = sc; s.fam = fam; s.user = json.dumps(user or {}); s.env = env or {}; s.kind = kind
        s.subtoc = bool((user or {}).get("useSubToc")); s.notime = s.env.get("FDB5_SERIALISATION_VERSION") == "1"   # that format has no timestamps
        s.schema = sc.write("schema", fam.text); s.roots = [sc.mkdir("root%d" % i) for i in range(nroots)]
        s.cfg = config(s.schema, s.roots, **(cfgextra or {}))
        s.m = Model(); s.w = {}; s.pid = 0; s.sess = 0; s.now = 1700000000; s.rn = 0; s.opened = []
    def drv(s, slot=0): return driver(s.env, s.kind, slot=slot)
    def tick(s): s.now += 5; return s.now        # the clock the archive sees
    def name(s, h): return "%s%s" % (os.path.basename(s.sc.d), h)
    def open(s, h, slot=0, user=None):
        d = s.drv(slot); d.ok("open", h=s.name(h), config=s.cfg, user=user or s.user); s.opened.append((slot, h)); return d
    def writer(s, w, slot=0):
        if w not in s.w:
            s.open("w%s" % w, slot); s.sess += 1; s.w[w] = {"slot": slot, "pend": OrderedDict(), "sess": s.sess}
        return s.w[w]
    def archive(s, w, kx, n, slot=0, key=None):
        ws = s.writer(w, slot); s.pid += 1; k = key_of(s.fam, kx); r = Rec(s.pid, n, ws["sess"], s.tick())
        s.drv(ws["slot"]).ok("archive", h=s.name("w%s" % w), key=key or k, data={"id": s.pid, "len": n}, now=s.now)
        i = ident(k); s.m.levels[i] = levels_of(s.fam, kx); s.m.kx[i] = kx
        ws["pend"].pop(i, None); ws["pend"][i] = r
        return r
    def commit(s, w):
        ws = s.w[w]
        for i, r in ws["pend"].items(): r.t1 = r.t2 = s.now; s.m.hist[i].append(r)
        ws["pend"] = OrderedDict()
    def flush(s, w):
        if w not in s.w: return
        s.drv(s.w[w]["slot"]).ok("flush", h=s.name("w%s" % w), now=s.tick()); s.commit(w)
    def close(s, w):
        if w not in s.w: return
        ws = s.w[w]; s.drv(ws["slot"]).ok("close", h=s.name("w%s" % w), now=s.tick()); s.commit(w)
        if s.subtoc:
            for i, h in s.m.hist.items():
                last = None
                for r in reversed(h):
                    if r.sess == ws["sess"]:
                        if last is None: last = r; r.t2 = s.now
                        else: h.remove(r)
        del s.w[w]
    def axis(s, lv, name):
        """Values of a field-level keyword in the index of the given levels."""
        return {s.m.levels[i][2].get(name, "") for i, h in s.m.hist.items() if h and s.m.levels[i][:2] == lv[:2]}
    def reader(s, slot=1):
        """A new reader (in another process than the writers unless slot says so); returns (driver, handle)."""
        s.rn += 1; h = "r%d" % s.rn; d = s.open(h, slot); return d, s.name(h)
    def done(s, d, h): d.ok("close", h=h)
    def closeall(s):
        for w in list(s.w): s.close(w)
    def cleanup(s):
        """Drop every handle the case left open (called in finally)."""
        for slot, h in s.opened:
            try: s.drv(slot).raw("close", h=s.name(h))
            except DriverDied: pass

def matching_retrieve(w, req):
    """Stored fields a retrieval names: every keyword of the field's rule that the field has is named with the field's
    value among those given; an optional keyword that the field lacks is either not named, or (field level) named only
    with values that no field of its index has. Keywords foreign to the rule do not select."""
    r = []
    for i in w.m.visible():
        have = dict(i); kx = w.m.kx[i]; br = w.fam.branches[kx[0]]; ok = True
        for k in br:
            if k[1] in have: ok = ok and k[1] in req and have[k[1]] in req[k[1]]
            elif k[1] in req: ok = ok and k[0] == 2 and not (set(req[k[1]]) & w.axis(w.m.levels[i], k[1]))
        if ok: r.append(i)
    return r

def one_request(ids):
    """A multi-valued request whose expansion is the product of the values of the given identifiers' keywords."""
    r = defaultdict(list)
    for i in ids:
        for k, v in i:
            if v not in r[k]: r[k].append(v)
    return dict(r)


SIZES = st.one_of(st.integers(1, 40), st.integers(1, 3000), st.sampled_from([1, 4096, 65536, 65537, 131072]))
@st.composite
def histories(draw, maxops=26, writers=2, opts=5, mop=("a", "a", "a", "a", "f", "c", "q", "m")):
    fi = draw(st.integers(0, len(FAMS) - 1)); fam = FAMS[fi]
    pool = draw(pools(fam))
    ix = st.integers(0, len(pool) - 1); w = st.integers(0, writers - 1)
    forms = {"a": st.tuples(st.just("a"), w, ix, SIZES), "f": st.tuples(st.just("f"), w), "c": st.tuples(st.just("c"), w),
             "q": st.tuples(st.just("q"), ix), "m": st.tuples(st.just("m"), st.lists(ix, min_size=1, max_size=4, unique=True))}
    ops = draw(st.lists(st.one_of(*[forms[x] for x in mop]), min_size=5, max_size=maxops))
    never = draw(st.lists(key_strategy(fam), max_size=3))
    return {"fam": fi, "opt": draw(st.integers(0, opts - 1)), "proc": draw(st.booleans()), "pool": pool, "ops": [list(o) for o in ops], "never": never}


def exclusive(w, wr):
    """Concurrent sub-TOC writers have no defined masking order: one writer at a time."""
    if w.subtoc:
        for o in list(w.w):
            if o != wr: w.close(o)
def step(w, c, op):
    """The archive/flush/close operations of a history. Returns True if it was one."""
    if op[0] == "a": exclusive(w, op[1]); w.archive(op[1], c["pool"][op[2]], op[3], slot=2 * op[1] if c.get("proc") else 0)
    elif op[0] == "f": w.flush(op[1])
    elif op[0] == "c": w.close(op[1])
    else: return False
    return True
def listing(d, h, req=None, mode="dedup", read=False, **kw):
    kw = dict(kw, h=h, mode=mode, read=read, req=req or {})
    if not req: kw["all"] = True
    return d.ok("list", **kw)["elems"]
def sub_requests(fam):
    """A partial selection: a subset of the keywords of one branch, each with one or more values (maybe one not in the pool)."""
    @st.composite
    def go(draw):
        bi = draw(st.integers(0, len(fam.branches) - 1)); r = {}
        for k in fam.branches[bi]:
            if draw(st.integers(0, 2)) == 0: r[k[1]] = draw(st.lists(st.sampled_from(k[3]), min_size=1, max_size=3, unique=True))
        return r
    return go()
def selected(i, req): return all(k in dict(i) and dict(i)[k] in req[k] for k in req)
def show(x, n=400):
    s = str(x); return s if len(s) <= n else s[:n] + "..."
