import sys, os, random; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
from grib import message
CFAM = Fam("capi", "[class, expver, stream, date, time, domain?\n [type?, levtype?\n  [step, levelist?, param]]]\n",
    [[K(0, "class", ["od", "rd"]), K(0, "expver", ["0001", "abcd"]), K(0, "stream", ["oper"]), K(0, "date", ["20200101", "20200102"]), K(0, "time", ["1200"]), K(0, "domain", ["g"], True),
      K(1, "type", ["an", "fc"], True), K(1, "levtype", ["sfc", "pl"], True), K(2, "step", ["0", "6", "12", "24"]), K(2, "levelist", ["500", "850"], True), K(2, "param", ["130", "131"])]])
KS = CFAM.branches[0]
# every call that must be refused: function, arguments ("!x": a live object of that kind), and which output is null
def N(fn, nulls="", **kw): return dict(kw, fn=fn, nulls=nulls.split())
BAD = [N("version", "out"), N("vcs", "out"), N("new_handle", "out"), N("new_handle_yaml", "out", sys="{}", user="{}"), N("new_handle_yaml", "sys", user="{}"), N("new_handle_yaml", "user", sys="{}"), N("new_handle_yaml", sys="{a: [", user="{}"), N("new_handle_yaml", sys="{type: nonsense}", user="{}"),
 N("delete_handle"), N("flush"), N("archive", k="!k", data={"id": 1, "len": 9}), N("archive", h="!h", data={"id": 1, "len": 9}), N("archive", "data", h="!h", k="!k", data={"id": 1, "len": 9}), N("archive", h="!h", k="!k0", data={"id": 1, "len": 9}), N("archive", h="!h", k="!kpart", data={"id": 1, "len": 9}),
 N("archive_multiple", r="!r", data={"id": 1, "len": 9}), N("archive_multiple", "data", h="!h", data={"id": 1, "len": 9}), N("archive_multiple", "data", h="!h", r="!r", data={"id": 1, "len": 9}),
 N("list", r="!r", depth=3), N("list", "out", h="!h", r="!r", depth=3), N("retrieve", r="!r", d="!d"), N("retrieve", h="!h", d="!d"), N("retrieve", h="!h", r="!r"),
 N("new_key", "out"), N("key_add", n="a", v="b"), N("key_add", "n", k="!k", v="b"), N("key_add", "v", k="!k", n="a"), N("delete_key"),
 N("new_request", "out"), N("request_add", n="a", v=["b"]), N("request_add", "n", r="!r", v=["b"]), N("request_add", "v", r="!r", n="a"), N("request_add", r="!r", n="step", v=["0", None]), N("request_get", n="class"), N("request_get", "n", r="!r"), N("request_get", "v", r="!r", n="class"), N("request_get", "count", r="!r", n="class"), N("request_get", r="!r", n="nosuch"), N("request_expand"), N("request_expand", r="!rbad"), N("delete_request"),
 N("new_splitkey", "out"), N("splitkey_next"), N("splitkey_next", "k", s="!s1"), N("splitkey_next", "v", s="!s1"), N("splitkey_next", s="!s"), N("delete_splitkey"), N("next"), N("attrs"), N("attrs", l="!l"), N("attrs", "uri", l="!l1"), N("attrs", "off", l="!l1"), N("attrs", "len", l="!l1"), N("attrs", l="!lend"), N("splitkey", l="!l"), N("splitkey", s="!s"), N("splitkey", l="!l1"), N("splitkey", l="!lend", s="!s"), N("splitkey", l="!l", s="!s"), N("delete_listiterator"),
 N("new_datareader", "out"), *[N(f) for f in ("open", "close", "tell", "size", "delete_datareader")], N("seek", n=0), N("skip", n=0), N("read", n=4), *[N(f, d="!d0") for f in ("open", "close", "tell", "size")], N("seek", d="!d0", n=0), N("skip", d="!d0", n=0), N("read", d="!d0", n=4), N("tell", "pos", d="!d"), N("size", "size", d="!d"), N("read", "buf", d="!d", n=4), N("read", "read", d="!d", n=4),
 N("wipe", r="!r"), N("wipe", h="!h"), N("wipe", "out", h="!h", r="!r"), N("purge", r="!r"), N("purge", h="!h"), N("purge", "out", h="!h", r="!r"), N("wipe_next"), N("purge_next"), N("wipe_string"), N("purge_string"), N("delete_wipe_element"), N("delete_purge_element")]
ENVS = [{}, {"FDB_SEEKABLE_DATA_HANDLE": "1"}]
RD = st.lists(st.one_of(*[st.tuples(st.just("read"), st.integers(0, 5), st.integers(0, 30))] * 4, st.tuples(st.just("seek"), st.integers(0, 3), st.integers(-2, 30)), st.tuples(st.just("skip"), st.integers(0, 2), st.integers(0, 30)), *[st.tuples(st.just(x)) for x in ("tell", "size", "reopen", "again")]), max_size=8)
@st.composite
def cases(draw):
    pool = draw(pools(CFAM, 2, 7, (0, 1, 1, 2))); ix = st.integers(0, len(pool) - 1); h = st.integers(0, 1); ixs = st.lists(ix, min_size=1, max_size=4)
    bad = st.tuples(st.just("e"), st.lists(st.integers(0, len(BAD) - 1), min_size=1, max_size=4), ix)
    a = st.one_of(*[st.tuples(st.just("a"), h, ix, st.integers(1, 200), st.integers(0, 5))] * 3, *[st.tuples(st.just("am"), h, ixs, st.sampled_from([0, 0, 1, 2]))] * 2)
    l = st.tuples(st.just("l"), h, sub_requests(CFAM), st.booleans(), st.sampled_from([3, 3, 3, 2, 1, 0, 7, -1]), st.sampled_from(["all", "all", "step", "part", "again", "nolevel"]), st.booleans()); g = st.tuples(st.just("g"), h, ixs, RD, st.booleans())
    q = st.one_of(l, l, g, g, st.tuples(st.just("q"), st.integers(0, 10 ** 6)), st.tuples(st.just("E"), h, ix, st.integers(0, 3)), bad, bad, st.tuples(st.just("cb"), st.booleans()), st.tuples(st.just("v"), st.integers(-2, 5)))
    z = st.one_of(st.none(), st.tuples(st.just("w"), h, ix, st.booleans(), st.sampled_from(["wipe", "wipe", "purge"])), st.tuples(st.just("x"), h)); ops = []
    for _ in range(draw(st.integers(1, 3))):
        ops += draw(st.lists(a, min_size=1, max_size=4)) + draw(st.sampled_from([[("f", 0), ("f", 1)]] * 4 + [[("f", 0)], [("f", 1)], []])) + [draw(l), draw(g), draw(bad)] + draw(st.lists(q, max_size=4)); y = draw(z)
        if y: ops.append(y)
    return {"env": draw(st.integers(0, 1)), "opt": draw(st.sampled_from([0, 2, 4])), "pool": pool, "ops": [json.loads(json.dumps(o)) for o in ops]}
class C23(Check):
    prop = "C23"; quick = 1800; thorough = 40000; targets = ("vdriver", "vgrib", "vcapi")
    rule = ("cases: programs of C calls over two handles: keys and requests built up, fields and message streams archived (with and without a request), flushes, new handles, listings (any depth, stepwise, abandoned, with null outputs), retrievals driven through the data reader, "
            "requests queried and expanded, wipes, purges, failure handlers, and calls with null, unset, exhausted or malformed arguments; results are compared with a model and with the C++ interface; non-trivial: at least one refused call, one listing and one retrieval of a field")
    def strategy(self): return cases()
    def run(self, c):
        on, user, env = OPTS[c["opt"]]; labels = {on}; did = set(); self.cb = False; self.nerr = 0
        with Scratch() as sc:
            w = World(sc, CFAM, user, dict(env, **ENVS[c["env"]])); m = w.m; pend = {0: OrderedDict(), 1: OrderedDict()}; live = set(); n = [0]
            d = driver(w.env, "plain", slot=0, exe="vcapi"); d.ok("cforget")
            def call(fn, expect=0, **kw):
                r = d.ok("capi", calls=[dict(kw, fn=fn)])["out"][0]; what = "%s(%s)" % (fn, show({k: v for k, v in kw.items()}, 300)); rc = r["rc"]
                if expect is not None and rc not in (expect if isinstance(expect, tuple) else (expect,)): raise Violation("%s returns %d (%s), expected %s" % (what, rc, r.get("err"), expect))
                if rc not in (0, 1, 2, 3): raise Violation("%s returns %d" % (what, rc))
                if rc in (1, 2) and not r["err"]: raise Violation("%s fails without a message" % what)
                want = [rc] if rc in (1, 2) and self.cb else []
                if r["failures"] != want: raise Violation("%s returns %d, and the failure handler is called with %s" % (what, rc, r["failures"]))
                return r
            def new(p): n[0] += 1; return "%s%d" % (p, n[0])
            def handle(h):
                if h not in live: call("new_handle_yaml", **{"as": "h%d" % h}, sys=w.cfg, user=w.user); live.add(h)
                return "h%d" % h
            def close(h):
                if h in live: call("delete_handle", h="h%d" % h); live.discard(h); read.pop(h, None); commit(h)
            dirty = False; read = {}; ver = [0]     # a handle goes on retrieving what it saw when it opened a database
            def commit(h):
                ver[0] += bool(pend[h])
                for i, b in pend[h].items(): m.hist[i].append(b)
                pend[h].clear()
            def put(h, kx, b):
                i = ident(key_of(CFAM, kx)); m.levels[i] = levels_of(CFAM, kx); m.kx[i] = kx; pend[h].pop(i, None); pend[h][i] = b
            def mkkey(kx, how=0):
                k = new("k"); call("new_key", **{"as": k}); ps = list(key_of(CFAM, kx).items()); random.Random(how).shuffle(ps) if how else None
                for j, (a, b) in enumerate(ps):
                    if how == 2 and j == 0: call("key_add", k=k, n=a, v="other")
                    call("key_add", k=k, n=a, v=b.upper() if how == 3 else b)
                return k
            def mkreq(req, how=0):
                r = new("r"); call("new_request", **{"as": r})
                for j, (a, vs) in enumerate(req.items()):
                    if how == 2 and j == 0: call("request_add", r=r, n=a, v=["other"])
                    call("request_add", r=r, n=a, v=["/".join(vs)] if how == 1 else vs[:1] + ["/".join(vs[1:])] if how == 3 and len(vs) > 1 else vs)
                return r
            def msgof(kx):
                """The nearest identifier a GRIB message can have, and such a message."""
                kx = list(kx); v = dict(zip([k[1] for k in KS], range(1, 99)))
                for k in ("domain", "type"): kx[v[k]] = max(kx[v[k]], 0)
                kx[v["levtype"]] = 0 if kx[v["levelist"]] < 0 else 1; w.pid += 1; p = w.pid
                return kx, message("GRIB2", (p, p + 1, p + 2, p + 3), **{k: x for k, x in key_of(CFAM, kx).items() if k != "domain"})[0]
            def split(ks): # [[name, value, level]] -> per level
                r = ([], [], [])
                for k, v, l in ks:
                    if v: r[l].append((k, v))      # an absent optional keyword may be listed with an empty value
                return tuple(tuple(sorted(x)) for x in r)
            def levels(i): return tuple(ident(x) for x in m.levels[i])
            def expected(req, dups, depth):
                """The fields of a listing; for smaller depths what the C++ interface lists in another process. n.b. the flag called duplicates asks for deduplication (a known finding: see the operation D)"""
                sel = [i for i, h in m.hist.items() if h and selected(i, req)]
                if depth == 3: return Counter({(levels(i), b): k for i in sel for b, k in Counter(m.hist[i][-1:] if dups else m.hist[i]).items()})
                dd, hh = w.reader(1); es = listing(dd, hh, req, "dedup" if dups else "full", level=depth); w.done(dd, hh); return Counter((*elem_levels(e)[:depth], *[()] * (3 - depth)) for e in es)
            def fieldat(u, o, l):
                with open(u, "rb") as f: f.seek(o); return f.read(l)
            try:
                for op in c["ops"]:
                    k = op[0]
                    if k == "a":
                        _, h, ix, ln, how = op; kx = c["pool"][ix]; b = fill(w.pid + 1, ln); w.pid += 1; ky = mkkey(kx, how); call("archive", h=handle(h), k=ky, data={"hex": b.hex()}); call("delete_key", k=ky); put(h, kx, b)
                    elif k == "am":
                        _, h, ixs, how = op; made = [msgof(c["pool"][i]) for i in ixs]; data = b"".join(b for _, b in made).hex(); did.add("messages")
                        if how == 0: call("archive_multiple", h=handle(h), data={"hex": data})
                        else:
                            made = list({ident(key_of(CFAM, kx)): (kx, b) for kx, b in made}.values())
                            if how == 2: made = made[:1]
                            data = b"".join(b for _, b in made).hex(); rq = one_request([ident(key_of(CFAM, kx)) for kx, _ in made]); exact = len(list(rq)) and _prod(rq) == len(made) and len({lv for kx, _ in made for lv in [kx[-2] < 0]}) == 1
                            r = mkreq(rq)
                            if how == 1 and not exact: continue
                            call("archive_multiple", h=handle(h), r=r, data={"hex": data}); did.add("request")
                        for kx, b in made: put(h, kx, b)
                    elif k == "f": call("flush", h=handle(op[1])); commit(op[1])
                    elif k == "x": close(op[1])
                    elif k == "l":
                        _, h, req, dups, depth, how, nul = op; nul = nul or not req; dp = depth if 1 <= depth <= 3 else 3; exp = expected({} if nul else req, dups, dp); l = new("l"); did.add("listing depth %d" % dp)
                        a = dict(h=handle(h), dups=dups, depth=depth); a["as"] = l
                        if not nul: a["r"] = mkreq(req, abs(depth) % 4)
                        call("list", **a)
                        if nul is False and len(set(a) & {"r"}) and op[3]: call("delete_request", r=a["r"])
                        if how in ("step", "part"):
                            s = new("s"); call("new_splitkey", **{"as": s}); got = Counter(); k_ = 0
                            while True:
                                r = call("next", (0, 3), l=l)
                                if r["rc"] == 3: break
                                call("splitkey", l=l, s=s); ks = []
                                while True:
                                    if how == "part" and len(ks) == 1: break
                                    r = call("splitkey_next", (0, 3), s=s)
                                    if r["rc"] == 3: break
                                    ks.append([r["k"], r["v"], r["level"]])
                                b = None
                                if dp == 3: r = call("attrs", l=l); b = fieldat(r["uri"], r["off"], r["len"])
                                got[(split(ks), b) if dp == 3 else split(ks)] += 1; k_ += 1
                                if how == "part" and k_ == 2: break
                            if how == "part": call("delete_listiterator", l=l); did.add("abandoned"); continue
                            call("next", 3, l=l)
                        else:
                            r = call("elements", 3, l=l, noattrs=dp < 3, again=how == "again", nolevel=how == "nolevel"); got = Counter()
                            for e in r["elems"]:
                                if e["rc"] != 3 or how == "again" and e["again"] != 3: raise Violation("iterating the keys of an element ends with %s, then %s" % (e["rc"], e.get("again")))
                                b = None
                                if dp == 3: b = fieldat(*e["attrs"])
                                if how == "nolevel": got[(tuple(sorted((x, y) for x, y, _ in e["keys"] if y)), b)] += 1
                                else: got[(split(e["keys"]), b) if dp == 3 else split(e["keys"])] += 1
                            if how == "nolevel": exp = Counter({k_: sum(v for q, v in exp.items() if (tuple(sorted(x for y in (q[0] if dp == 3 else q) for x in y)), q[1] if dp == 3 else None) == k_) for k_ in {(tuple(sorted(x for y in (q[0] if dp == 3 else q) for x in y)), q[1] if dp == 3 else None) for q in exp}})
                        call("delete_listiterator", l=l)
                        if got != exp: raise Violation("listing %s (depth %d, duplicates %s, %s): %s not expected, %s missing" % ("all" if nul else req, depth, dups, how, show(got - exp), show(exp - got)))
                    elif k == "g":
                        _, h, ixs, seq, fresh = op
                        if read.get(h, ver[0]) != ver[0]: close(h)
                        read[h] = ver[0]; ids = [ident(key_of(CFAM, c["pool"][i])) for i in ixs]; ids = [i for i in ids if m.hist.get(i)]
                        if not ids: continue
                        rq = one_request(ids); sel = matching_retrieve(w, rq); parts = [m.hist[i][-1] for i in sel]; r = mkreq(rq, len(ixs) % 4); rd = new("d"); call("new_datareader", **{"as": rd})
                        if not fresh: call("retrieve", h=handle(h), r=mkreq(one_request(ids[:1])), d=rd)
                        call("retrieve", h=handle(h), r=r, d=rd); call("delete_request", r=r)
                        self.reader(call, rd, parts, seq, c["env"] == 1, "retrieving %s" % rq); call("delete_datareader", d=rd); did.add("retrieved")
                    elif k == "q":
                        rn = random.Random(op[1]); rq = {}; r = new("r"); call("new_request", **{"as": r})
                        for _ in range(rn.randint(1, 8)):
                            a = rn.choice(["class", "step", "levelist", "param", "stream", "number"]); vs = [rn.choice(["od", "1", "x y", "12", "a=b", "3/to/9", "Q"]) for _ in range(rn.randint(1, 4))]
                            call("request_add", r=r, n=a, v=vs); rq[a] = [x for v in vs for x in v.split("/")]
                            b = rn.choice(list(rq)); g = call("request_get", r=r, n=b)["v"]
                            if g != rq[b]: raise Violation("a request given %s=%s returns %s" % (b, rq[b], g))
                        call("delete_request", r=r); did.add("request queried")
                    elif k == "E":     # expansion, then a listing with the expanded request
                        _, h, ix, how = op; b = dict(ident(key_of(CFAM, c["pool"][ix]))); r = new("r"); call("new_request", **{"as": r})
                        given = {"class": [b["class"]], "expver": [b["expver"].lstrip("0") or "0"], "date": ["20200101", "to", "20200102"], "step": ["0", "to", "12", "by", "6"], "param": ["t" if b["param"] == "130" else "u"], "time": ["12"], "stream": ["oper"], "type": ["an"], "levtype": ["pl"], "levelist": ["500", "to", "850", "by", "350"], "domain": ["g"]}
                        names = [x for x in given if x in ("class", "expver", "date", "step", "param", "time", "stream", "type", "levtype") or how % 2]
                        want = dict(given, expver=[b["expver"]], date=["20200101", "20200102"], step=["0", "6", "12"], param=[b["param"]], time=["1200"], levelist=["500", "850"])
                        for x in names: call("request_add", r=r, n=x, v=["/".join(given[x])] if how > 1 else given[x])
                        call("request_expand", r=r)
                        for x in names:
                            g = call("request_get", r=r, n=x)["v"]
                            if g != want[x]: raise Violation("expansion of %s=%s gives %s, expected %s" % (x, "/".join(given[x]), g, want[x]))
                        l = new("l"); call("list", h=handle(h), r=r, depth=3, dups=True, **{"as": l}); es = call("elements", 3, l=l)["elems"]; call("delete_listiterator", l=l)
                        got = Counter(split(e["keys"]) for e in es); exp = Counter(levels(i) for i in m.visible() if selected(i, {x: want[x] for x in names}))
                        if got != exp: raise Violation("listing an expanded request: %s not expected, %s missing" % (show(got - exp), show(exp - got)))
                        did.add("expanded")
                    elif k == "w":
                        _, h, ix, doit, fn = op
                        for x in (0, 1): close(x)
                        kx = c["pool"][ix]; lv = levels_of(CFAM, kx)[0]; rq = {a: [b] for a, b in lv.items()}
                        if dirty: continue      # a refused archive leaves an index file that the wipe does not know
                        if "domain" not in lv: continue     # such a request selects the databases with a domain as well
                        dd, hh = w.reader(1); cpp = dd.raw(fn, h=hh, req=rq, doit=False, porcelain=False, force=False); w.done(dd, hh)
                        r = call(fn, (0, 1), h=handle(h), r=mkreq(rq), doit=doit, porcelain=False, unsafe=False); close(h)
                        if (r["rc"] == 0) != cpp["ok"]: raise Violation("%s of %s: the C interface returns %s, the C++ interface %s" % (fn, rq, r, cpp))
                        if r["rc"]: continue
                        if r.get("end") != 3: raise Violation("the iteration of %s ends with %s" % (fn, r.get("end")))
                        ce = [e["msg"] for e in cpp["elems"]] if fn == "wipe" else [e if isinstance(e, str) else e.get("msg") for e in cpp["elems"]]
                        r["elems"] = [x for x in r["elems"] if not (doit and x.startswith("Control URIs"))]      # locks of the wipe itself
                        if (Counter(ce) - Counter(r["elems"]) if doit and fn == "purge" else len(ce) != len(r["elems"]) or not doit and Counter(ce) != Counter(r["elems"])): raise Violation("%s of %s: the C interface reports %s, the C++ interface %s" % (fn, rq, show(r["elems"]), show(ce)))
                        did.add(fn)
                        for i in list(m.hist):
                            if doit and m.levels[i][0] == lv:
                                if fn == "wipe": m.hist[i] = []
                                else: m.hist[i] = m.hist[i][-1:]
                    elif k == "D":     # not generated: a field archived twice, listed as documented
                        for on in (False, True):
                            l = new("l"); call("list", h=handle(0), depth=3, dups=on, **{"as": l}); es = call("elements", 3, l=l)["elems"]; call("delete_listiterator", l=l)
                            if len(es) != sum(len(x) if on else 1 for x in m.hist.values() if x): raise Violation("a listing with duplicates %s reports %d elements" % (on, len(es)), sig="dups-flag")
                    elif k == "cb": call("handler", on=op[1]) if not op[1] else (setattr(self, "cb", False), d.ok("capi", calls=[{"fn": "handler", "on": True}])); self.cb = op[1]; did.add("failure handler %s" % op[1])
                    elif k == "v":
                        s = d.ok("capi", calls=[{"fn": "errstr", "code": op[1]}])["out"][0]["s"]
                        if s is None or op[1] in (0, 3) and s != ["Success", 0, 0, "Iteration complete"][op[1]]: raise Violation("fdb_error_string(%d) is %s" % (op[1], s))
                        if not call("version").get("v") or "v" not in call("vcs"): raise Violation("no version")
                    elif k == "e":
                        read.setdefault(0, ver[0]); dirty = dirty or any(BAD[b % len(BAD)]["fn"].startswith("archive") for b in op[1])
                        for b in op[1]: self.bad(call, new, handle, mkkey, mkreq, c, op[2], BAD[b % len(BAD)]); did.add("refused")
                for h in (0, 1): close(h)
                if self.cb: call("handler", on=False); self.cb = False
                dd, hh = w.reader(1); es = listing(dd, hh, None, "dedup", True); w.done(dd, hh); got = {elem_ident(e): e for e in es}
                if set(got) != set(m.visible()) or any(not same(e.get("data", {"len": -1}), m.hist[i][-1]) for i, e in got.items()): raise Violation("the C++ interface lists %s after the program, expected %s" % (show(sorted(got)), show(sorted(m.visible()))))
            finally:
                self.cb = False
                try: d.raw("capi", calls=[{"fn": "handler", "on": False}] + [{"fn": "delete_handle", "h": "h%d" % h} for h in live]); d.raw("cforget")
                except DriverDied: pass
                w.cleanup()
        return {"labels": labels | did, "nontrivial": "refused" in did and "retrieved" in did and any(x.startswith("listing") for x in did)}
    def bad(self, call, new, handle, mkkey, mkreq, c, ix, b):
        """A call that must be refused, on live objects where it names them."""
        a = {k: v for k, v in b.items() if k != "fn"}; kx = c["pool"][ix]; key = key_of(CFAM, kx); req = {k: [v] for k, v in key.items()}; made = []
        def obj(x):
            if x == "!h": return handle(0)
            if x == "!k": r = mkkey(kx); made.append(("delete_key", "k", r)); return r
            if x == "!k0": r = new("k"); call("new_key", **{"as": r}); return r
            if x == "!kpart": r = new("k"); call("new_key", **{"as": r}); [call("key_add", k=r, n=n, v=v) for n, v in key.items() if n != "param"]; return r
            if x == "!r": r = mkreq(req); made.append(("delete_request", "r", r)); return r
            if x == "!rbad": return mkreq(dict(req, param=["nosuchparam"]))
            if x in ("!l", "!l1", "!lend"):
                r = new("l"); call("list", h=handle(0), depth=3, **{"as": r}); made.append(("delete_listiterator", "l", r))
                if x == "!l1": call("next", (0, 3), l=r)
                if x == "!lend": call("elements", 3, l=r)
                return r
            if x in ("!s", "!s1"):
                r = new("s"); call("new_splitkey", **{"as": r}); made.append(("delete_splitkey", "s", r))
                if x == "!s1":
                    l = new("l"); call("list", h=handle(0), depth=3, **{"as": l})
                    if call("next", (0, 3), l=l)["rc"] == 0: call("splitkey", l=l, s=r)
                return r
            if x in ("!d", "!d0"):
                r = new("d"); call("new_datareader", **{"as": r}); made.append(("delete_datareader", "d", r))
                if x == "!d": call("retrieve", h=handle(0), r=mkreq(req), d=r); call("open", d=r)
                return r
            return x
        for k, v in list(a.items()):
            if isinstance(v, str) and v.startswith("!"): a[k] = obj(v)
        call(b["fn"], 1, **a)
        for fn, k, v in made: call(fn, **{k: v})
    def reader(self, call, rd, parts, seq, seekable, what):
        n = sum(map(len, parts)); pos = 0; got = {}; hist = []
        def val(e, fn, **kw):
            hist.append([fn, kw]); v = call(fn, d=rd, **kw)["n"]
            if v != e: raise Violation("%s: %s gives %d, expected %d" % (what, show(hist), v, e))
        def read(r):
            nonlocal pos
            hist.append(["read", r]); x = call("read", d=rd, n=r); k = x["n"]
            if k < 0 or k > min(r, n - pos) or k == 0 and r and pos < n or seekable and k != min(r, n - pos): raise Violation("%s: %s gives %d bytes with %d left" % (what, show(hist), k, n - pos))
            if not x.get("clean", True): raise Violation("%s: %s writes behind the buffer" % (what, show(hist)))
            for j, y in enumerate(rbytes(x["data"]) if k else b""):
                if got.setdefault(pos + j, y) != y: raise Violation("%s: %s gives another byte at %d than before" % (what, show(hist), pos + j))
            pos += k
        val(n, "open")
        for s in seq:
            if s[0] == "read": read([s[2], s[2] * 7, n, n - pos, n + 5, 1][s[1]])
            elif s[0] == "seek" and seekable:
                o = [s[2], n + s[2], pos + s[2], n * 2 // 3][s[1]]
                if 0 <= o <= n: hist.append(["seek", o]); call("seek", d=rd, n=o); pos = o
            elif s[0] == "skip" and seekable:
                o = pos + [0, s[2], n - pos][s[1]]
                if o <= n: hist.append(["skip", o - pos]); call("skip", d=rd, n=o - pos); pos = o
            elif s[0] == "tell" and seekable: val(pos, "tell")
            elif s[0] == "size": val(n, "size")
            elif s[0] == "reopen": call("close", d=rd); val(n, "open"); pos = 0
        while pos < n: read(n - pos + 1)
        read(3); call("close", d=rd)
        val(n, "open"); pos = 0
        while pos < n: read(n - pos)
        call("close", d=rd)
        if not segments(bytes(got[j] for j in range(n)), parts): raise Violation("%s: not the bytes of the fields" % what)
def _prod(rq):
    r = 1
    for v in rq.values(): r *= len(v)
    return r
if __name__ == "__main__": main(C23())
