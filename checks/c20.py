import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
import random
FI = [0, 1, 2, 5]; HAND = ["Default", "First", "WeightedRandom", "RoundRobin", "Random", "PureRandom", "LeastUsed", "LeastUsedPercent", "WeightedRandomPercent"]
ROOTS = ["r0", "R1", "r+(2)", "r.3", "r4 x", "r5", "r6", "gone"]      # the last one does not exist
ALL = ("list", "retrieve", "archive", "wipe")
def dbkw(fam): return [[k for k in br if k[0] == 0] for br in fam.branches]
def regex(rn, fam, names):
    f = rn.choice(["all", "all", "first", "last", "exact", "mid"]); d = rn.choice(names); v = d.split(":")
    return {"all": ".*", "first": "^%s:.*" % v[0], "last": ".*:%s$" % v[-1], "exact": "^%s$" % d, "mid": "^[^:]*:%s(:.*)?$" % v[1 if len(v) > 1 else 0]}[f]
def flags(rn):
    return rn.choice([{}, {}, {}, {"writable": False}, {"visit": False}, {"archive": False}, {"retrieve": False}, {"list": False, "retrieve": False}, {"wipe": False}, {"writable": False, "archive": True}, {"visit": False, "list": True}])
def space(rn, fam, names, form, paths):
    s = {"regex": regex(rn, fam, names), "handler": rn.choice(HAND), "roots": [[p, flags(rn) if form == "yaml" else rn.choice([{}, {}, {"writable": False}, {"visit": False}, {"visit": False, "writable": False}]) if form == "files" else {}] for p in paths]}
    return s
def spaces(rn, fam, names, form):
    n = rn.choice([1, 1, 2, 3]) if form != "dir" else 1; pool = rn.sample(ROOTS[:6] + ([ROOTS[7]] if rn.random() < .3 else []), min(6, n * 2 + 1)); r = []
    for j in range(n):
        k = rn.choice([1, 2, 2]) if j < n - 1 else len(pool); r.append(space(rn, fam, names, form, pool[:k])); pool = pool[k:]
        if rn.random() < .25: r[-1]["split"] = True
        if not pool: break
    if rn.random() < .6: r[-1]["regex"] = ".*"
    return r
def change(rn, fam, names, form, ss):
    """A later configuration of the same site: flags changed, spaces or roots in another order."""
    ss = json.loads(json.dumps(ss)); m = rn.choice(["flags", "flags", "roots", "spaces", "none"])
    for s in ss:
        if m == "flags" and rn.random() < .7: s["roots"] = space(rn, fam, names, form, [p for p, _ in s["roots"]])["roots"]
        if m == "roots": rn.shuffle(s["roots"])
    if m == "spaces": rn.shuffle(ss)
    return ss
@st.composite
def cases(draw):
    fi = draw(st.sampled_from(FI)); fam = FAMS[fi]; rn = random.Random(draw(st.integers(0, 2 ** 32)))
    pool = draw(pools(fam, 2, 7, (0, 0, 1))); names = sorted({dbname(fam, k) for k in pool}); form = rn.choice(["yaml", "yaml", "yaml", "files", "disks", "dir"])
    sp = [spaces(rn, fam, names, form)]
    while len(sp) < 3: sp.append(change(rn, fam, names, form, sp[-1]))
    if form != "yaml":
        for ss in sp:
            for s in ss: s.pop("split", None)
    if form == "dir":
        for ss in sp[1:]: ss[:] = sp[0]
    expver = form in ("yaml", "disks") and fam.name == "mars" and rn.random() < .5
    if expver:
        for ss in sp: ss[:] = json.loads(json.dumps(sp[0][-1:])); ss[0]["handler"] = "expver"
    if expver or form in ("files", "disks"): sp = json.loads(json.dumps(sp).replace("r4 x", "r6"))      # these files have no way to write a space
    naming = None
    if rn.random() < .3:
        naming = []
        kss = rn.sample(dbkw(fam), rn.randint(1, len(fam.branches))); kss += rn.choices(kss, k=rn.choice([0, 0, 1, 2]))      # several lines may be for the same keywords
        for ks in kss:
            naming.append([[[k[1], rn.choice(["", "", ".*", "(%s)" % "|".join(sorted(k[3], key=len, reverse=True)) if not k[2] else "", rn.choice([v for v in k[3] if not any(v in u and u != v for u in k[3])]) if not k[2] else ""])] for k in ks], [[k[1], rn.choice("_-+x.")] for k in rn.sample(ks, len(ks))]])
    ix = st.integers(0, len(pool) - 1)
    op = st.one_of(st.tuples(st.just("a"), ix, st.integers(1, 300)), st.tuples(st.just("a"), ix, st.integers(1, 300)), st.tuples(st.just("q"), ix), st.tuples(st.just("l"), sub_requests(fam)))
    return {"fam": fi, "pool": pool, "form": form, "expver": expver, "map": [rn.choice([-1, 0, 1]) for _ in range(2)], "naming": naming, "phases": [{"spaces": s, "ops": [list(o) for o in draw(st.lists(op, min_size=2, max_size=8))]} for s in sp[:draw(st.integers(1, 3))]], "wipe": draw(st.sampled_from([0, 0, 0, 1]))}
def on(fl, what):
    if what in fl: return fl[what]
    return fl.get("visit", True) if what in ("list", "retrieve") else fl.get("writable", True)
class C20(Check):
    prop = "C20"; deterministic = False; quick = 2400; thorough = 30000
    rule = ("cases: one to three successive configurations of a site (one to three spaces with regular expressions, six roots with odd names, one missing, all flags, separate catalogue and store roots, all policies, expver maps, directory naming files; given as YAML, as spaces/roots files, as disk lists, or as one root directory), with archives, listings, retrievals and wipes in each; "
            "non-trivial: databases in two or more roots, or an operation refused")
    def strategy(self): return cases()
    def run(self, c):
        fam = FAMS[c["fam"]]; labels = {fam.name, c["form"]}; used = set(); refused = 0; pending = []; now = 1700000000; opened = []; nid = 0
        with Scratch() as sc:
            R = {p: os.path.join(sc.d, "top", p) for p in ROOTS}
            for p in ROOTS[:7]: os.makedirs(R[p])
            schema = sc.write("schema", fam.text); where = {}      # dbname -> {root: {ident: [(id, len)]}}
            kx_of = {}; base = {}
            if c["naming"]: base["FDB_DBNAMES_FILE"] = sc.write("dbnames", "# names\n" + "".join("%s %s\n" % (",".join(k + ("=" + r if r else "") for k, r in a), "".join("%s{%s}" % (s, k) for k, s in b)) for a, b in c["naming"])); labels.add("naming")
            def dirname(kx):
                have = {k[1]: (k[3][i] if i >= 0 else "") for k, i in zip(fam.branches[kx[0]], kx[1:]) if k[0] == 0}
                for a, b in c["naming"] or []:
                    if set(have) == {k for k, r in a} and all(re.search(r or "[^:/]*", have[k]) for k, r in a): return "".join("%s%s" % (s, have[k]) for k, s in b)
                return dbname(fam, kx)
            if len({dirname(k) for k in c["pool"]}) != len({dbname(fam, k) for k in c["pool"]}): raise Skip()      # two databases named alike
            if c["expver"]:
                emap = {}; first = c["phases"][0]["spaces"][-1]; ok = [p for p, fl in first["roots"] if on(fl, "archive") and on(fl, "list") and p != "gone"]
                for v, j in zip(["0001", "abcd"], c["map"]):
                    if j >= 0 and ok: emap[v] = ok[j % len(ok)]
                mapped = set(emap); base["FDB_EXPVER_FILE"] = sc.write("expmap", "".join("%s %s\n" % (v, R[p]) for v, p in emap.items())); labels.add("expver")
                if any(" " in R[p] for p in emap.values()) or any(" " in p for s in c["phases"][0]["spaces"] for p, _ in s["roots"]): raise Skip()       # the file format has no spaces in paths
            if c["form"] in ("files", "disks") and any(" " in p for ph in c["phases"] for s in ph["spaces"] for p, _ in s["roots"]): raise Skip()
            for pi, ph in enumerate(c["phases"]):
                ss = ph["spaces"]; env = dict(base); split = {}
                def roots(s, kind): return [{"path": R[p], **fl} for p, fl in s["roots"]]
                if c["form"] == "yaml":
                    out = []
                    for j, s in enumerate(ss):
                        x = {"regex": s["regex"], "handler": s["handler"]}
                        if s.get("split"):
                            labels.add("split"); st_ = os.path.join(sc.d, "top", "store%d" % j); os.makedirs(st_, exist_ok=True); x["catalogueRoots"] = roots(s, 0); x["storeRoots"] = [{"path": st_}]; split[j] = st_
                        else: x["roots"] = roots(s, 0)
                        out.append(x)
                    cfg = {"spaces": out}
                elif c["form"] == "files":
                    env["FDB_ROOTS_FILE"] = sc.write("roots%d" % pi, "# roots\n" + "".join("%s s%d %s  %s\n" % (R[p], j, str(on(fl, "archive")).lower(), str(on(fl, "list")).lower()) for j, s in enumerate(ss) for p, fl in s["roots"]))
                    env["FDB_SPACES_FILE"] = sc.write("spaces%d" % pi, "".join("%s  s%d %s\n" % (s["regex"], j, s["handler"]) for j, s in enumerate(ss))); cfg = {}
                elif c["form"] == "disks":
                    cfg = {"spaces": [{"regex": s["regex"], "handler": s["handler"], "name": "s%d" % j, "marsDisks": True, "path": sc.write("disks%d-%d" % (pi, j), "# disks\n\n" + "".join(R[p] + "\n" for p, _ in s["roots"]))} for j, s in enumerate(ss)]}
                else: env["FDB_ROOT_DIRECTORY"] = R["r0"]; cfg = {"spaces": [{"roots": [{"path": R["r1" if 0 else "r5"]}]}]}; ss = [{"regex": ".*", "handler": "Default", "roots": [["r0", {}]]}]
                cfg = json.dumps(dict(cfg, type="local", engine="toc", schema=schema)); d = driver(env); h = "%s-%d" % (os.path.basename(sc.d), pi); hw = h + "w"; hand = {}
                def can(s, what): return [p for p, fl in s["roots"] if on(fl, what) and p != "gone"]
                def lookup(kx):
                    """First matching space; the roots of it where the database is seen."""
                    s = next((s for s in ss if re.search(s["regex"], dbname(fam, kx))), None)
                    if c["form"] == "dir": return s, [r for r in where.get(dirname(kx), {})]
                    return s, [p for p in can(s, "list") if p in where.get(dirname(kx), {})] if s else []
                def partial(req):
                    """What the spaces see of a partial request: the values named, nothing for the others."""
                    r = set()
                    for br in dbkw(fam):
                        ks = [""]
                        for j, k in enumerate(br):
                            vs = [v for v in req.get(k[1], [""])]
                            ks = [x + (":" if j else "") + v for x in ks for v in vs]
                        r |= set(ks)
                    return r
                def visible(req):
                    out = Counter(); hidden = Counter(); cand = defaultdict(set); lenient = partial(req)
                    for name, rs in where.items():
                        for r, fs in rs.items():
                            for i, vs in fs.items():
                                if not selected(i, req): continue
                                mine = [s for s in ss if r in can(s, "list")]
                                if not mine: continue
                                s = mine[0]
                                if not req or re.search(s["regex"], dbname(fam, kx_of[i])): (out if not req or any(re.search(s["regex"], k) for k in lenient) else hidden)[i] += len(vs); cand[i].add(vs[-1])
                    return out, hidden, cand
                def check(req):
                    es = listing(d, h, req, "full", True); got = Counter(elem_ident(e) for e in es); want, hidden, cand = visible(req)
                    may = Counter(i for name, rs in where.items() for r, fs in rs.items() for i, vs in fs.items() if selected(i, req) and any(r in can(s, "list") for s in ss) for _ in vs)
                    if want - got or got - may or (not req and got != want):
                        raise Violation("listing of %s with %s: %s; expected %s" % (req, ss, show(sorted(got.elements())), show(sorted(want.elements()))))
                    if hidden - (got - want): pending.append("listing of %s does not show %s, whose space has the expression %s" % (req, show(sorted(hidden)), [s["regex"] for s in ss]))
                    for e in listing(d, h, req, "dedup", True):
                        i = elem_ident(e)
                        if i in cand and len(cand[i]) == 1:
                            if "data" not in e or not same(e["data"], fill(*next(iter(cand[i])))): raise Violation("listing of %s: field %s does not have the bytes archived" % (req, i))
                try:
                    d.ok("open", h=h, config=cfg); opened.append((d, h)); opened.append((d, hw)); wopen = False
                    for op in ph["ops"]:
                        now += 5
                        if op[0] == "a":
                            kx = c["pool"][op[1]]; key = key_of(fam, kx); i = ident(key); nid += 1; s, ex = lookup(kx); why = None
                            if s is None: why = "no space matches"
                            elif len(ex) > 1: why = "the database is in several roots"
                            elif ex:
                                if not on(dict(map(tuple, s["roots"]))[ex[0]], "archive"): why = "its root %s is read-only" % ex[0]
                            elif not can(s, "archive"): why = "no root is writable"
                            if c["form"] == "dir": why = None
                            if not wopen: d.ok("open", h=hw, config=cfg); wopen = True
                            r = d.raw("archive", h=hw, key=key, data={"id": nid, "len": op[2]}, now=now)
                            if r["ok"]: r = d.raw("flush", h=hw, now=now)
                            else: d.raw("close", h=hw); wopen = False
                            if r["ok"] and why: raise Violation("field %s is archived, though %s: %s" % (key, why, ss))
                            if not r["ok"] and not why: raise Violation("archiving %s fails: %s; spaces %s" % (key, r["what"], ss))
                            if why: refused += 1; continue
                            if s.get("split") and ss.index(s) in split and 0: pass
                            dn = dirname(kx); tree = {p: set(os.listdir(R[p])) for p in ROOTS[:7]}; at = [p for p in tree if dn in tree[p] and os.path.exists(os.path.join(R[p], dn, "toc"))]; old = set(where.get(dn, {})); new = [p for p in at if p not in old]
                            if ex: root = ex[0]
                            else:
                                writable = can(s, "archive") if c["form"] != "dir" else ["r0"]; hidden_old = [p for p in old if p in writable]
                                if len(new) > 1: raise Violation("database %s is created in %s" % (dn, new))
                                if not new and not hidden_old: raise Violation("database %s is in none of the writable roots %s of %s: found in %s" % (dn, writable, s, at))
                                root = new[0] if new else None
                                if root is None:      # went to a database that this configuration does not show
                                    root = hidden_old[0]
                                    if len(hidden_old) > 1: raise Skip()
                                    labels.add("unseen")
                                if root not in writable: raise Violation("database %s is created in %s, the writable roots of its space are %s" % (dn, root, writable))
                                if s["handler"] in ("Default", "First") and new and root != writable[0]: raise Violation("database %s is created in %s, first writable root is %s" % (dn, root, writable[0]))
                                if c["expver"]:
                                    ev = key["expver"]
                                    if ev not in emap: emap[ev] = root
                                    if root != emap[ev]: raise Violation("database %s is created in %s, its experiment version is assigned to %s" % (dn, root, emap[ev]))
                            if [p for p in new if p != root]: raise Violation("database %s, which is in %s, is also created in %s" % (dn, root, new))
                            where.setdefault(dn, {}).setdefault(root, {}).setdefault(i, []).append((nid, op[2])); kx_of[i] = kx; used.add(root)
                            if op[2] % 2: d.ok("close", h=hw, now=now); wopen = False
                        elif op[0] == "l":
                            if wopen: d.ok("close", h=hw, now=now); wopen = False
                            d.ok("close", h=h); d.ok("open", h=h, config=cfg); check(op[1])
                        else:
                            kx = c["pool"][op[1]]; i = ident(key_of(fam, kx)); s, ex = lookup(kx); d.ok("close", h=h); d.ok("open", h=h, config=cfg)
                            r = d.raw("retrieve", h=h, req=one_request([i])); fs = where.get(dirname(kx), {}).get(ex[0], {}) if len(ex) == 1 else {}
                            if len(ex) == 1 and c["form"] != "dir" and not on(dict(map(tuple, s["roots"]))[ex[0]], "retrieve"): fs = {}
                            match = [j for j in fs if set(i) <= set(j) or set(j) <= set(i)]
                            if i in fs and len(match) == 1:
                                if not r["ok"] or not same(r, fill(*fs[i][-1])): raise Violation("retrieval of %s, archived in %s, gives %s; spaces %s" % (i, ex[0], r.get("what", r.get("len")), ss))
                            elif i not in fs and not match and r["ok"] and r["len"]: raise Violation("retrieval of %s gives %d bytes; it is in no root of %s that allows it" % (i, r["len"], ss))
                    if wopen: d.ok("close", h=hw, now=now)
                    d.ok("close", h=h); d.ok("open", h=h, config=cfg); check({})
                finally:
                    for dd, hh in opened:
                        if dd.alive():
                            try: dd.raw("close", h=hh)
                            except DriverDied: pass
                    opened = []
                stray = set(os.listdir(os.path.join(sc.d, "top"))) - set(ROOTS[:7]) - {"store0", "store1", "store2"}
                if stray: raise Violation("created next to the roots: %s" % stray)
                for p in ROOTS[:7]:
                    extra = {n for n in os.listdir(R[p])} - {n for n in where if p in where[n]}
                    for n in extra:     # a store directory may be in another writable root than the catalogue; a failed archive leaves no database
                        if os.path.exists(os.path.join(R[p], n, "toc")): raise Violation("unexpected database %s in %s" % (n, p))
            if c["wipe"] and where:
                d.ok("open", h=h, config=cfg); opened = [(d, h)]
                try:
                    one = all(len(rs) == 1 for rs in where.values()) and all(lookup(kx_of[i])[1] == [r] for rs in where.values() for r in rs for i in rs[r])
                    shown = {(n, r) for n, rs in where.items() for r in rs if any(r in can(s, "list") for s in ss) or c["form"] == "dir"}
                    wr = d.raw("wipe", h=h, req={}, all=True, doit=True)
                    for n, rs in where.items():
                        for r in rs:
                            there = os.path.exists(os.path.join(R[r], n, "toc")); s = next((s for s in ss if r in [p for p, _ in s["roots"]]), None); fl = dict(map(tuple, s["roots"])).get(r, {}) if s else {}
                            if (n, r) not in shown and not there: raise Violation("wiping everything removes %s in %s, which is no visible root of %s" % (n, r, ss))
                            if (n, r) in shown and not there and not on(fl, "wipe"): pending.append("W wiping everything removes %s in %s, a root not enabled for wiping" % (n, r))
                            if (n, r) in shown and there and on(fl, "wipe") and "unclean" in str(wr.get("what")): labels.add("unclean")     # data of a catalogue that this configuration does not show
                            elif (n, r) in shown and there and on(fl, "wipe") and one: raise Violation("wiping everything leaves %s in %s: %s" % (n, r, show(wr, 1500)))
                    labels.add("wiped")
                finally: d.raw("close", h=h)
            lab = {"labels": sorted(labels) + ["roots:%d" % len(used)] + (["refused"] if refused else []), "nontrivial": len(used) > 1 or refused > 0}
            for m in pending:
                v = Violation(m, sig="C20-wipe-root" if m.startswith("W ") else "C20-partial-space"); v.info["lab"] = lab; raise v
        return lab
if __name__ == "__main__": main(C20())
