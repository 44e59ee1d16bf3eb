import sys, os, random, struct, math, itertools; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
TYPES = "param:Param;\nstep:Step;\ndate:Date;\ntime:Time;\nlevelist:Double;\nnumber:Integer;\nexpver:Expver;\n"
SCHEMAS = [TYPES + "[class, expver, date, time\n [type, levtype\n  [step, levelist?, param, number?]]]\n", TYPES + "[class, expver, stream, date\n [type, levtype, time, number?\n  [levelist?, param, step]]]\n"]
VALS = {"date": ["20200101", "20200102", "20200103", "20200229"], "time": ["0000", "0600", "1200"], "step": ["0", "6", "12", "24", "48"], "levelist": ["1000", "850", "500", "50"], "param": ["130", "131", "132", "133"], "number": ["1", "2", "3", "10"]}
MULTI = list(VALS)
def spell(rng, k, vs, pl):
    """The values as a user may write them."""
    if k == "step" and len(vs) > 2 and len({int(b) - int(a) for a, b in zip(vs, vs[1:])}) == 1 and rng.random() < .7: return "%s/to/%s/by/%d" % (vs[0], vs[-1], int(vs[1]) - int(vs[0]))
    if k == "date" and vs == VALS["date"][:3] and rng.random() < .7: return "20200101/to/20200103"
    m = rng.random()
    if k == "date" and m < .2: vs = ["%s-%s-%s" % (v[:4], v[4:6], v[6:]) for v in vs]
    if k == "time" and m < .3: vs = [v[:2] for v in vs]
    if k == "param" and m < .3 and pl: vs = [{"130": "t", "131": "u", "132": "v", "133": "q"}[v] for v in vs]
    if k == "param" and m > .8: vs = [v + ".128" for v in vs]
    return "/".join(vs)
def values(rng, vals, n):
    if rng.random() < .3: n = len(vals)
    v = rng.sample(vals, min(n, len(vals)))
    if rng.random() < .4: v.sort(key=vals.index)
    return v
def part(rng, big):
    p = {"class": "od", "expver": rng.choice(["0001", "abcd"]), "type": rng.choice(["an", "fc", "pf"]), "levtype": rng.choice(["pl", "pl", "sfc"])}
    for k in MULTI: p[k] = values(rng, VALS[k], rng.choice([1, 1, 1, 2, 2, 3]))
    if p["levtype"] == "sfc": del p["levelist"]
    if p["type"] != "pf": del p["number"]
    while size(p) > big:
        k = rng.choice([k for k in MULTI if k in p and len(p[k]) > 1]); p[k] = p[k][:-1]
    return p
def size(p): return math.prod(len(v) for k, v in p.items() if k in MULTI)
def divisors(n): return [d for d in range(1, n + 1) if n % d == 0]
def fixed_ok(cards, n):
    """Documented rule: all of the faster keys in full times a divisor of the number of values of the next one."""
    t = 1
    for c in reversed(cards):
        if n and n % t == 0 and c % (n // t) == 0: return True
        t *= c
    return False
@st.composite
def cases(draw):
    seed = draw(st.integers(0, 10 ** 12)); rng = random.Random(seed); pick = rng.choice
    p = part(rng, draw(st.sampled_from([24, 24, 8, 60])))
    keys = [k for k in MULTI if k in p and len(p[k]) > 1]; single = [k for k in list(p) if k not in keys]
    keys += [k for k in single if rng.random() < .15]
    if not keys: keys = [pick(single)]
    rng.shuffle(keys); axes = []
    for k in keys:
        if axes and rng.random() < .4: axes[-1].append(k)
        else: axes.append([k])
    ext = rng.randrange(len(axes)); parts = [{"p": p, "axes": [list(a) for a in axes]}]
    for _ in range(pick([0, 0, 1, 1, 2])):
        q = {k: (list(v) if isinstance(v, list) else v) for k, v in p.items()}
        if rng.random() < .3: q["expver"] = "0001" if q["expver"] == "abcd" else "abcd"
        if rng.random() < .3 and q["type"] != "pf": q["type"] = pick(["an", "fc"])
        for k in axes[ext]:
            if k in MULTI: q[k] = values(rng, VALS[k], pick([1, 2, 3, len(p[k]), len(p[k])]))
        for k in MULTI:
            if k in q and k not in axes[ext] and rng.random() < .3: q[k] = values(rng, VALS[k], len(q[k]))[:len(q[k]) if rng.random() < .97 else None]
        ax = [list(a) for a in axes]
        if rng.random() < .1: rng.shuffle(ax[rng.randrange(len(ax))])
        parts.append({"p": q, "axes": ax})
    ch = []
    for n, a in enumerate(axes):
        cards = [len(p[k]) if k in MULTI else 1 for k in a]; m = rng.random()
        if m < .3: c = "whole"
        elif m < .6: c = "single"
        elif m < .97: t = math.prod(cards[(j := rng.randrange(len(cards))) + 1:]); c = t * pick(divisors(cards[j]))
        else: c = pick([0, 1, 2, 3, 5, 7])
        ch.append(c)
    for q in parts: q["chunk"] = list(ch)
    odd = pick([None] * 36 + ["drop key", "two axes", "unknown", "no axes", "empty axis", "fewer axes", "chunk", "no extension", "extension out", "swap", "duplicate"])
    q = pick(parts)
    if odd == "drop key": a = pick(q["axes"]); a.remove(pick(a))
    elif odd == "two axes": pick(q["axes"]).append(pick(pick(q["axes"])))
    elif odd == "unknown": pick(q["axes"]).append(pick(["stream", "foo", "levelist", "number", "domain"]))
    elif odd == "no axes": q["axes"] = []; q["chunk"] = []
    elif odd == "empty axis": q["axes"].append([]); q["chunk"].append(pick(["whole", "single", 1]))
    elif odd == "fewer axes": q["axes"].pop(); q["chunk"].pop()
    elif odd == "chunk": q["chunk"][rng.randrange(len(q["chunk"]))] = pick(["whole", "single", 1, 2, 3, 4, 6])
    elif odd == "swap": i = rng.randrange(len(q["axes"])); q["axes"][0], q["axes"][i] = q["axes"][i], q["axes"][0]
    elif odd == "duplicate": k = pick([k for k in MULTI if k in q["p"]]); q["p"][k] = q["p"][k] + [pick(q["p"][k])]
    ex = None if (len(parts) == 1 and rng.random() < .5) or odd == "no extension" else (len(axes) + rng.randrange(3) if odd == "extension out" else ext)
    faults = [[pick(["missing", "missing", "size", "stray", "double", "part size", "swap stray", "lane", "lane"]), rng.randrange(10 ** 6), rng.randrange(10 ** 6)] for _ in range(pick([0, 0, 0, 1, 1, 2, 3]))]
    return {"parts": parts, "odd": odd, "extend": ex, "ext": ext, "faults": faults, "schema": pick([0, 1]), "n": pick([3, 4, 7, 40]), "fill": pick([None, None, -5, 0, 1000000]), "gaps": pick([0, 0, 0, .3]), "over": pick([0, 0, .3]), "noise": pick([0, 3]), "sample": pick(["GRIB2", "GRIB2", "GRIB1"]), "python": rng.random() < .25, "san": rng.random() < .3, "seed": seed}
_memo = {}
def message(sample, vals, gaps):
    u = json.dumps([sample, vals, gaps])
    if u not in _memo:
        if len(_memo) > 30000: _memo.clear()
        s = ([["bitmapPresent", "1"]] if gaps else []) + [["bitsPerValue", "16"], ["values", [9999 if j in gaps else v for j, v in enumerate(vals)]]]
        r = driver({}, "plain", slot=91, exe="vview").raw("grib", sample=sample, set=s)
        if not r["ok"]: raise HarnessError(str(r)[:500])
        _memo[u] = r["hex"]
    return _memo[u]
VENV = "/opt/vp/venv/bin/python3"
def python():
    st_ = os.path.join(BUILD, "plain")
    return driver({"PYTHONPATH": st_ + "/z3fdb-python-package-staging:" + st_ + "/pyfdb-python-package-staging", "FDB5_DIR": st_, "PYTHONDONTWRITEBYTECODE": "1", "NUMEXPR_MAX_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}, "plain", slot=92, prog=[VENV, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../driver/py/worker.py")])
class C28(Check):
    prop = "C28"; quick = 500; thorough = 15000; targets = ("vdriver", "vview", "chunked_data_view_bindings", "pyfdb_bindings"); kinds = ("plain", "san")
    rule = ("cases: archives of GRIB fields (two schemas, overwritten fields, missing values, fields besides those wanted), and views of one to three requests over them: keywords dealt to axes in any order and combination, each chunked whole, singly or in fixed sizes, parts joined along any axis; with fields missing, of other sizes, ambiguous, or held by two lanes, and with malformed definitions; every chunk (or a sample) read, the plain library and the instrumented one, and zarr arrays with slices through the Python packages; "
            "non-trivial: more than one field in the view")
    def strategy(self): return cases()
    def run(self, c):
        rng = random.Random(c["seed"] + 1); schema = SCHEMAS[c["schema"]]; names = set(n for n in ("class", "expver", "stream", "date", "time", "type", "levtype", "step", "levelist", "param", "number") if n != "stream" or c["schema"])
        parts = c["parts"]; N = c["n"]; labels = set(); kind = "san" if c["san"] else "plain"
        def ident_of(q): return ident({k: v for k, v in q.items() if k in names})
        full = lambda p, **kw: dict({k: v for k, v in p.items() if k not in MULTI}, stream="enfo" if p["type"] == "pf" else "oper", **kw)
        stored = {}; lane2 = {}; strays = {}; order = []
        def field(q, n=N):
            v = [0, 65535] + [rng.randrange(65536) for _ in range(n - 2)]; g = sorted(j for j in range(2, n) if rng.random() < .3) if rng.random() < c["gaps"] else []
            return {"vals": v, "gaps": g, "msgs": 1}
        for pt in parts:
            p = pt["p"]; ks = [k for k in MULTI if k in p]
            for vs in itertools.product(*[p[k] for k in ks]): stored[ident_of(full(p, **dict(zip(ks, vs))))] = field(None)
        wanted = list(stored); lanes = False
        for f, a, b in c["faults"]:
            i = wanted[a % len(wanted)]; labels.add(f)
            if f == "missing": stored.pop(i, None)
            elif f == "size" and i in stored: stored[i] = field(None, max(2, N + [-1, 1, 5][b % 3]))
            elif f == "double" and i in stored: stored[i]["msgs"] = 2
            elif f == "part size":
                p = parts[b % len(parts)]["p"]; n = max(2, N + [-1, 1, 2][a % 3]); ks = [k for k in MULTI if k in p]
                for vs in itertools.product(*[p[k] for k in ks]):
                    j = ident_of(full(p, **dict(zip(ks, vs))))
                    if j in stored: stored[j] = field(None, n)
            elif f in ("stray", "swap stray"):
                d = dict(i); opt = [k for k in ("levelist", "number") if k in d]
                if opt:
                    k = opt[b % len(opt)]; d.pop(k); strays[ident(d)] = field(None)
                    if f == "swap stray": stored.pop(i, None)
            elif f == "lane":
                lanes = True; lane2[i] = field(None)
                if b % 2: stored.pop(wanted[b % len(wanted)], None); lane2.pop(wanted[b % len(wanted)], None)
        with Scratch() as sc:
            w = World(sc, Fam("grib", schema, [])); cfg = w.cfg; cfg2 = None
            if lanes: cfg2 = config(w.schema, [sc.mkdir("r2")])
            d = driver({}, kind, exe="vview"); h = os.path.basename(sc.d)
            def put(cf, fields, tag):
                ops = []
                for i, f in fields.items():
                    if rng.random() < c["over"]: ops.append((0, i, {"vals": [0, 65535] + [1] * (len(f["vals"]) - 2), "gaps": [], "msgs": 1}))
                    ops.append((1, i, f))
                rng.shuffle(ops); ops.sort(key=lambda o: o[0] if c["over"] else 0)
                d.ok("open", h=h + tag, config=cf, user="{}")
                for _, i, f in ops:
                    d.ok("archive", h=h + tag, key=dict(i), data={"hex": message(c["sample"], f["vals"], f["gaps"]) * f["msgs"]})
                    if rng.random() < .1: d.ok("flush", h=h + tag)
                d.ok("flush", h=h + tag); d.ok("close", h=h + tag)
            noise = {}
            for _ in range(c["noise"]):
                q = dict(rng.choice(wanted)); k = rng.choice([k for k in q if k in MULTI]); q[k] = rng.choice(VALS[k])
                if ident(q) not in wanted: noise[ident(q)] = field(None)
            put(cfg, {**stored, **strays, **noise}, "a")
            if lanes: put(cfg2, lane2, "b"); cfg = json.dumps({"type": "select", "fdbs": [dict(json.loads(cfg) if cfg.lstrip().startswith("{") else __import__("yaml").safe_load(cfg), select="class=od"), dict(json.loads(cfg2) if cfg2.lstrip().startswith("{") else __import__("yaml").safe_load(cfg2), select="class=od")]})
            cf = sc.write("view.yaml", cfg)
            spec = {"h": h, "config": cf, "parts": [{"req": ",".join("%s=%s" % (k, spell(rng, k, v, pt["p"]["levtype"] == "pl") if k in MULTI else v) for k, v in dict(full(pt["p"]), **{k: pt["p"][k] for k in MULTI if k in pt["p"]}).items()), "axes": [{"keys": a, "chunk": x} for a, x in zip(pt["axes"], pt["chunk"])]} for pt in parts]}
            if c["extend"] is not None: spec["extend"] = c["extend"]
            if c["fill"] is not None: spec["fill"] = c["fill"]
            try: return self.views(c, rng, d, h, spec, parts, stored, strays, lane2, lanes, full, ident_of, labels)
            finally:
                try: d.raw("vdrop", h=h)
                except DriverDied: pass
    def views(self, c, rng, d, h, spec, parts, stored, strays, lane2, lanes, full, ident_of, labels):
        N = c["n"]; ext = c["extend"] if c["extend"] is not None else 0; fill = float("nan") if c["fill"] is None else float(c["fill"])
        vals = lambda pt, k: pt["p"][k] if k in MULTI else [full(pt["p"])[k]]
        # what is certainly fine, and what certainly is not
        must = True; never = None
        for pt in parts:
            allk = [k for a in pt["axes"] for k in a]
            if len(allk) != len(set(allk)): never = "a keyword in two axes"
            elif any(k not in pt["p"] and k != "stream" for k in allk): never = "an axis of a keyword that the request lacks"
            elif any(k not in allk for k in MULTI if k in pt["p"] and len(set(pt["p"][k])) > 1): never = "a keyword with several values in no axis"
            if not pt["axes"] or not all(pt["axes"]) or "stream" in allk: must = False
            if any(len(set(v)) != len(v) for k, v in pt["p"].items() if k in MULTI): must = False
            if never: break
            for a, x in zip(pt["axes"], pt["chunk"]):
                if x == 0: never = "chunks of size zero"
                elif isinstance(x, int) and not fixed_ok([len(vals(pt, k)) for k in a], x): must = False
        if not never:
            E = [[math.prod(len(vals(pt, k)) for k in a) for a in pt["axes"]] for pt in parts]
            if len(parts) > 1 and c["extend"] is None: never = "several parts and no axis to join them along"
            elif c["extend"] is not None and c["extend"] >= len(E[0]): never = "no such axis to extend"
            elif any(len(e) != len(E[0]) for e in E) or any(x != y for e in E for j, (x, y) in enumerate(zip(e, E[0])) if j != ext): never = "parts of different shapes"
            if any(pt["chunk"] != parts[0]["chunk"] for pt in parts): must = False
        def candidates(pt, key):
            """Every field that retrieving this position may find: exact ones first."""
            i = ident_of(key); r = []
            if i in stored: r.append(("exact", stored[i]))
            if lanes and i in lane2: r.append(("exact", lane2[i]))
            for s, f in strays.items():
                if all(dict(i).get(k) == v for k, v in s): r.append(("stray", f))
            return r
        lens = set(); empty = []; two = False
        for n, pt in enumerate(parts):
            ks = [k for k in MULTI if k in pt["p"]]; found = False
            for vs in itertools.product(*[pt["p"][k] for k in ks]):
                cs = candidates(pt, full(pt["p"], **dict(zip(ks, vs))))
                found |= bool(cs); lens |= {len(f["vals"]) for _, f in cs}; two |= any(f["msgs"] > 1 for _, f in cs)
            if not found: empty.append(n)
        if empty and not never: never = "no field for a part"
        irregular = len(lens) > 1
        desc = {k: v for k, v in spec.items() if k not in ("h", "config")}
        r = d.raw("vbuild", **spec)
        def refused(r): return not r["ok"]
        if never:
            if r["ok"]: raise Violation("a view was made in spite of %s: %s gives %s" % (never, desc, r))
            return {"labels": sorted(labels | {"refused", never}), "nontrivial": True}
        if not r["ok"]:
            if must and not irregular and not strays: raise Violation("a proper view was refused: %s: %s" % (desc, r["what"][:600]))
            if r.get("what", "").startswith("driver:"): raise HarnessError(str(r))
            return {"labels": sorted(labels | {"refused"}), "nontrivial": True}
        shape = list(E[0]); shape[ext] = sum(e[ext] for e in E)
        L = r["shape"][-1]
        if r["shape"][:-1] != shape or L not in lens: raise Violation("the view %s has shape %s; its axes have %s elements and its fields %s values" % (desc, r["shape"], shape, sorted(lens)))
        chunk = r["chunk"]
        if must:
            want = [(shape[j] if x == "whole" else 1 if x == "single" else x) for j, x in enumerate(parts[0]["chunk"])] + [L]
            if chunk != want: raise Violation("the view %s of shape %s has chunks of shape %s; defined was %s" % (desc, r["shape"], chunk, want))
        if len(chunk) != len(shape) + 1 or not all(chunk) or r["chunks"] != [-(-s // k) for s, k in zip(shape + [L], chunk)] or r["count"] != math.prod(chunk): raise Violation("the view %s of shape %s reports chunks of shape %s, %s of them, of %s values" % (desc, r["shape"], chunk, r["chunks"], r["count"]))
        def at(pos):
            """The part and identifier of a position, and whether keys of axes are what tells fields apart."""
            pos = list(pos); n = 0
            while pos[ext] >= E[n][ext]: pos[ext] -= E[n][ext]; n += 1
            pt = parts[n]; key = full(pt["p"], **{k: pt["p"][k][0] for k in MULTI if k in pt["p"]}); dup = False
            for a, x in zip(pt["axes"], pos):
                for k in reversed(a): vs = vals(pt, k); key[k] = vs[x % len(vs)]; x //= len(vs); dup |= vs.count(key[k]) > 1
            return pt, key, dup
        def ok_value(f, got):
            if len(f["vals"]) != L: return False
            return all((math.isnan(g) and math.isnan(fill) or g == fill) if j in f["gaps"] else g == v for j, (v, g) in enumerate(zip(f["vals"], got)))
        def judge(positions, got, what):
            """got: None if refused, else values per position."""
            missing = []; loose = not must or irregular or two
            for pos in positions:
                pt, key, dup = at(pos); cs = candidates(pt, key); ex = [f for t, f in cs if t == "exact"]
                if len(ex) != 1 or len(cs) != 1 or dup: loose = True
                if not cs or all(len(f["vals"]) != L and f["msgs"] == 1 for _, f in cs): missing.append((pos, key))
                elif got is not None:
                    okv = any(ok_value(f, got[pos]) for f in (ex or [f for _, f in cs]))
                    if not okv: raise Violation("%s of the view %s: at %s, the field %s with values %s, is %s" % (what, desc, list(pos), key, [["-" if j in f["gaps"] else v for j, v in enumerate(f["vals"])][:12] for _, f in cs], list(got[pos])[:12]))
            if missing and got is not None: raise Violation("%s of the view %s was given although the field at %s, %s, %s; it reads %s" % (what, desc, list(missing[0][0]), missing[0][1], "is of another size" if candidates(at(missing[0][0])[0], missing[0][1]) else "does not exist", list(got[missing[0][0]])[:12]))
            if got is None and not missing and not loose: return False
            return True
        idx = list(itertools.product(*[range(n) for n in r["chunks"]]))
        if len(idx) > 24: idx = rng.sample(idx, 24)
        nref = 0
        for i in idx:
            a = d.raw("vat", h=h, index=list(i)); lo = [x * k for x, k in zip(i, chunk)][:-1]
            pos = [p for p in itertools.product(*[range(l, min(l + k, s)) for l, k, s in zip(lo, chunk, shape)])]
            got = None
            if a["ok"]:
                v = struct.unpack("<%df" % (len(a["hex"]) // 8), bytes.fromhex(a["hex"])); got = {}
                for p in pos:
                    o = 0
                    for x, l, k in zip(p, lo, chunk): o = o * k + x - l
                    got[p] = v[o * L:(o + 1) * L]
            else: nref += 1
            if not judge(pos, got, "chunk %s" % list(i)): raise Violation("chunk %s of the view %s was refused, all its fields exist: %s" % (list(i), desc, a["what"][:600]))
        for _ in range(2):      # indices that do not exist, buffers too short
            i = list(rng.choice(idx)); m = rng.randrange(4); kw = {}
            if m == 0: j = rng.randrange(len(i)); i[j] = r["chunks"][j] + rng.choice([0, 0, 1, 7])
            elif m == 1: i.append(0)
            elif m == 2: i.pop()
            else: kw["len"] = rng.choice([0, 1, max(0, r["count"] - 1), r["count"] // 2])
            a = d.raw("vat", h=h, index=i, **kw)
            if a["ok"]: raise Violation("the view %s of %s chunks of %s gave a chunk for index %s%s" % (desc, r["chunks"], chunk, i, " into a buffer of %d values" % kw["len"] if kw else ""))
        if c["python"]:
            py = python(); z = py.raw("zbuild", **{k: v for k, v in spec.items() if k != "parts"}, parts=[dict(p, req={k: (v.split("/") if rng.random() < .5 and "/to/" not in v else v) for k, v in (x.split("=") for x in p["req"].split(","))}) for p in spec["parts"]])
            if not z["ok"]: raise Violation("the view %s cannot be opened as an array: %s" % (desc, z["what"]))
            if irregular: pass
            elif z["shape"] != r["shape"] or z["chunk"] != chunk or z["dtype"] != "float32": raise Violation("the view %s of shape %s in chunks of %s is an array of %s, %s in chunks of %s" % (desc, r["shape"], chunk, z["dtype"], z["shape"], z["chunk"]))
            else:
                paths = ["zarr.json"] + ["/".join(["c"] + [str(x) for x in i]) for i in itertools.product(*[range(n) for n in r["chunks"]])]
                if z["paths"] != sorted(paths): raise Violation("the store of the view %s lists %s; its parts are %s" % (desc, z["paths"][:20], sorted(paths)[:20]))
                for _ in range(2):
                    sel = []
                    for s in shape: a = rng.randrange(s); b = rng.randrange(a, s) + 1; sel.append(rng.choice([[0, s, 1], [a, b, 1], [a, b, 1], [a, b, 2]]))
                    a = py.raw("zread", h=h, sel=sel + [[0, L, 1]]); rs = [range(*x) for x in sel]; got = None
                    if a["ok"]:
                        if a["shape"] != [len(x) for x in rs] + [L]: raise Violation("slice %s of the view %s has shape %s" % (sel, desc, a["shape"]))
                        v = struct.unpack("<%df" % (len(a["hex"]) // 8), bytes.fromhex(a["hex"])); got = {p: v[n * L:(n + 1) * L] for n, p in enumerate(itertools.product(*rs))}
                        judge(list(got), got, "slice %s" % sel)
                    elif nref == 0 and len(idx) == math.prod(r["chunks"]): raise Violation("slice %s of the array of the view %s cannot be read, every chunk can: %s" % (sel, desc, a["what"][:600]))
                labels.add("zarr")
            py.raw("zdrop", h=h)
        labels |= {"%d parts" % len(parts), "%d axes" % len(shape)} | ({"some chunks refused"} if nref else set()) | ({"combined axis"} if any(len(a) > 1 for pt in parts for a in pt["axes"]) else set()) | ({"malformed, accepted"} if not must else set())
        return {"labels": sorted(labels), "nontrivial": math.prod(shape) > 1, "count": len(idx)}
if __name__ == "__main__": main(C28())
