import sys, os, subprocess, itertools, random; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
from grib import message, decoded
from c11 import SCHEMA, tool, eq
SP = [("class", ["od", "rd"]), ("expver", ["0001", "abcd"]), ("date", ["20200101", "20200102"]), ("time", ["0000", "1200"]), ("type", ["an", "fc"]), ("levelist", [None, "500", "850"]), ("step", ["0", "6", "12"]), ("param", ["130", "131"])]
MSG = st.tuples(*[st.integers(0, len(v) - 1) for _, v in SP]).map(list)
@st.composite
def near(draw, lo=1, hi=6):
    """Messages that share most of their keywords."""
    b = draw(MSG); r = []
    for _ in range(draw(st.integers(lo, hi))):
        m = list(b)
        for j in draw(st.lists(st.integers(0, len(SP) - 1), max_size=3)): m[j] = draw(st.integers(0, len(SP[j][1]) - 1))
        r.append(m)
    return r
FILT = st.dictionaries(st.sampled_from(["class", "expver", "type", "step", "param", "time"]), st.lists(st.integers(0, 2), min_size=1, max_size=2, unique=True), min_size=1, max_size=2)
MOD = st.dictionaries(st.sampled_from(["class", "expver", "type", "step"]), st.integers(0, 2), min_size=1, max_size=2)
@st.composite
def cube(draw):
    """A request as value lists, and what is done to the stream of its messages."""
    b = draw(MSG); req = [[x] for x in b]
    for j in draw(st.lists(st.integers(0, len(SP) - 1), max_size=3)):
        if SP[j][0] == "levelist": req[j] = [1, 2] if b[j] else [0]
        else: req[j] = draw(st.lists(st.integers(0, len(SP[j][1]) - 1), min_size=1, max_size=2, unique=True))
    return ["q", req, draw(st.integers(0, 1000)), draw(st.sampled_from([None, None, None, "drop", "dup", "swap", "extra", "other"])), draw(st.integers(0, 1000)), draw(MSG)]
@st.composite
def cases(draw):
    op = st.one_of(st.tuples(st.just("m"), st.sampled_from(["handle", "raw", "archiver", "tool"]), near(), st.none(), st.none(), st.none()), st.tuples(st.just("m"), st.sampled_from(["archiver", "tool"]), near(), st.one_of(st.none(), FILT), st.one_of(st.none(), FILT), st.one_of(st.none(), MOD)),
        cube(), cube(), st.tuples(st.just("c"), st.integers(0, 10 ** 6), st.booleans(), st.booleans(), st.one_of(st.none(), MOD)), st.just(("f",)))
    return {"sample": draw(st.sampled_from(["GRIB1", "GRIB2"])), "ops": [list(o) for o in draw(st.lists(op, min_size=1, max_size=8))]}
def keyof(m): r = {n: v[i] for (n, v), i in zip(SP, m)}; r["stream"] = "oper"; r["domain"] = "g"; r["levtype"] = "pl" if r["levelist"] else "sfc"; return {k: v for k, v in r.items() if v is not None}
def val(n, i): v = dict(SP)[n]; return v[i % len(v)]
class C22(Check):
    prop = "C22"; quick = 500; thorough = 12000; targets = ("vdriver", "vgrib", "fdb-write", "fdb-copy")
    rule = ("cases: sequences of message streams archived by handle, buffer, MessageArchiver or fdb-write (with include and exclude filters and modifiers), archived against a request (exact, a message missing, twice, replaced or foreign) and copied with fdb-copy (request file or list, modifiers) to a second archive; "
            "non-trivial: a stream of two or more messages, and an archive against a request or a filter, modifier or copy")
    def strategy(self): return cases()
    def run(self, c):
        labels = {c["sample"]}; multi = special = False; self.v = 0
        with Scratch() as sc:
            w = World(sc, Fam("grib", SCHEMA, [])); t = World(sc, Fam("grib", SCHEMA, []), nroots=1); t.roots = [sc.mkdir("troot")]; t.cfg = config(t.schema, t.roots)
            cf, tf = sc.write("cfg.yaml", w.cfg), sc.write("tcfg.yaml", t.cfg); src = {}; dst = {}      # identifier -> the messages that may be its value (None: nothing)
            def make(m, **mod):
                self.v += 1; k = dict(keyof(m), **mod); f = {x: y for x, y in k.items() if x != "domain"}
                return message(c["sample"], (self.v, self.v + 1, self.v + 2, self.v + 3), **f)[0], k
            def put(model, k, *msgs): model[ident(k)] = list(msgs)
            def filtered(k, inc, exc):
                sel = lambda f: all(k.get(n) in [val(n, i) for i in v] for n, v in f.items())
                return (not inc or sel(inc)) and not (exc and sel(exc))
            text = lambda f: ",".join("%s=%s" % (n, "/".join(dict.fromkeys(val(n, i) for i in v))) for n, v in f.items())
            try:
                for op in c["ops"]:
                    if op[0] == "m":
                        _, how, ms, inc, exc, mod = op; made = [make(m) for m in ms]; data = b"".join(b for b, _ in made); multi |= len(ms) > 1; special |= bool(inc or exc or mod)
                        inc, exc = ({n: v[:1] if n in ("class", "expver", "type") else v for n, v in (f or {}).items()} for f in (inc, exc))      # one value only in a MARS request
                        mods = {n: val(n, i) for n, i in (mod or {}).items()}; labels |= {how} | {x for x, y in (("include", inc), ("exclude", exc), ("modifiers", mod)) if y}
                        if how in ("handle", "raw"): w.open("w0"); d = w.drv(0); d.ok("archmsg", h=w.name("w0"), data={"hex": data.hex()}, raw=how == "raw"); d.ok("flush", h=w.name("w0")); d.ok("close", h=w.name("w0"))
                        elif how == "archiver":
                            d = driver(w.env, "plain", slot=0, exe="vgrib"); a = {}
                            if inc: a["include"] = text(inc)
                            if exc: a["exclude"] = text(exc)
                            if mods: a["modifiers"] = mods
                            d.ok("aopen", h="a", config=w.cfg, user="{}", **a)
                            r = d.ok("aarch", h="a", data={"hex": data.hex()}); d.ok("aflush", h="a"); d.ok("aclose", h="a")
                            if not mods and r["n"] != sum(len(b) for b, k in made if filtered(k, inc, exc)): raise Violation("MessageArchiver reports %d bytes for %s" % (r["n"], [k for _, k in made if filtered(k, inc, exc)]))
                        else:
                            fs = [sc.write("m%d.grib" % j, "") for j in range(2)]; cut = len(made) // 2
                            for f, part in zip(fs, (made[:cut], made[cut:])): open(f, "wb").write(b"".join(b for b, _ in part))
                            fs = [f for f in fs if os.path.getsize(f)]
                            rc, out = tool("fdb-write", *(["--include-filter=" + text(inc)] if inc else []), *(["--exclude-filter=" + text(exc)] if exc else []), *(["--modifiers=" + ",".join("%s=%s" % x for x in mods.items())] if mods else []), *fs, env={"FDB5_CONFIG_FILE": cf})
                            if rc: raise Violation("fdb-write fails: %s" % out[-800:])
                        for b, k in made:
                            if filtered(k, inc, exc):
                                if mods: k = dict(k, **mods); b = ("as", b, mods)
                                put(src, k, b)
                    elif op[0] == "q":
                        _, req, perm, fault, at, alien = op; special = True; ms = [list(x) for x in itertools.product(*req)]; rq = {}
                        for j, (n, v) in enumerate(SP):
                            vs = [v[i] for i in req[j] if v[i] is not None]
                            if vs: rq[n] = vs
                        rq["stream"] = ["oper"]; rq["levtype"] = ["pl" if req[5] != [0] else "sfc"]
                        if at % 2: rq["domain"] = ["g"]
                        random.Random(perm).shuffle(ms); good = {ident(keyof(m)) for m in ms}
                        if fault == "drop": del ms[at % len(ms)]
                        elif fault == "dup": ms.insert(perm % (len(ms) + 1), ms[at % len(ms)])
                        elif fault == "extra": ms.insert(at % (len(ms) + 1), alien)
                        elif fault == "swap": ms[at % len(ms)] = alien
                        elif fault == "other":      # one keyword of one message is another
                            m = list(ms[at % len(ms)]); j = perm % len(SP); m[j] = (m[j] + 1) % len(SP[j][1]); ms[at % len(ms)] = m
                        if not ms: continue
                        made = [make(m) for m in ms]; ids = [ident(k) for _, k in made]; exact = len(ids) == len(set(ids)) and set(ids) == good; multi |= len(ms) > 1; labels.add("request " + ("exact" if exact else fault))
                        w.open("w0"); d = w.drv(0); r = d.raw("archmsg", h=w.name("w0"), data={"hex": b"".join(b for b, _ in made).hex()}, req=rq); d.ok("flush", h=w.name("w0")); d.ok("close", h=w.name("w0"))
                        if r["ok"] != exact: raise Violation("archiving the messages %s against the request %s %s" % ([dict(i) for i in ids], rq, "is accepted" if r["ok"] else "fails: %s" % r.get("what")))
                        for b, k in made:
                            if exact: put(src, k, b)
                            else: src.setdefault(ident(k), [None]).append(b)
                    elif op[0] == "c":
                        _, seed, fromlist, sort, mod = op; special = True; labels.add("copy"); mods = {n: val(n, i) for n, i in (mod or {}).items()}
                        if any(len(v) > 1 for v in src.values()): continue
                        have = sorted(i for i, v in src.items() if v != [None]); rn = random.Random(seed)
                        if not have: continue
                        one = rn.choice(have); near_it = [i for i in have if dict(i)["levtype"] == dict(one)["levtype"]]
                        rq = one_request([one] + rn.sample(near_it, min(len(near_it), rn.randint(0, 3))))
                        for n in ("class", "expver", "type"): rq[n] = rq[n][:1]
                        if fromlist: rq.pop("domain")
                        if mods and any(rq.get(n, [None]) != [rq[n][0]] for n in mods): mods = {}      # modified keywords have one value in the request
                        sel = {i: v for i, v in src.items() if v != [None] and all(dict(i).get(n) in vs for n, vs in rq.items()) and all(n in rq or n == "domain" for n in dict(i))}
                        if not sel: continue
                        if len({ident(dict(i, **mods)) for i in sel}) < len(sel): continue
                        txt = ",".join("%s=%s" % (n, "/".join(v)) for n, v in rq.items()); mt = ["--modifiers=" + ",".join("%s=%s" % x for x in mods.items())] if mods else []
                        arg = [txt] if fromlist else [sc.write("req.mars", "retrieve," + txt + "\n")]
                        rc, out = tool("fdb-copy", "--source=" + cf, "--target=" + tf, *(["--from-list"] if fromlist else []), *(["--sort"] if sort else []), *mt, *arg)
                        if rc: raise Violation("fdb-copy of %s fails: %s" % (txt, out[-800:]))
                        for i, v in sel.items(): put(dst, dict(i, **mods), ("as", v[0], mods) if mods else v[0])
                        labels.add("copied" if sel else "copied nothing")
                        if mods: labels.add("copy modified")
                self.compare(c, w, src, "the archive"); self.compare(c, t, dst, "the target of the copies")
            finally: w.cleanup(); t.cleanup()
        return {"labels": sorted(labels), "nontrivial": multi and special}
    def compare(self, c, w, model, what):
        d, h = w.reader(1); es = listing(d, h, None, "dedup", True); got = {elem_ident(e): e for e in es}; w.done(d, h)
        must = {i for i, v in model.items() if None not in v}
        if set(got) - set(model): raise Violation("%s lists %s, which were not archived" % (what, show(sorted(set(got) - set(model)))))
        if must - set(got): raise Violation("%s lacks %s" % (what, show(sorted(must - set(got)))))
        for i, e in got.items():
            if "data" not in e: raise Violation("%s: %s cannot be read: %s" % (what, i, e.get("readerr")))
            if not any(v is not None and self.equal(c, e["data"], v, i) for v in model[i]): raise Violation("%s: %s has other bytes than its message" % (what, i))
    def equal(self, c, rep, v, i):
        if not isinstance(v, tuple): return same(rep, v)
        while isinstance(v, tuple): v = v[1]      # modified: the values are the same and the header gives the new identifier
        a, b = decoded(rbytes(rep)), decoded(v)
        return a is not None and a[1] == b[1] and all(a[0].get(n) == x or n == "param" and a[0].get(n) == x + ".128" or n in ("time", "expver") and (a[0].get(n) or "").zfill(4) == x for n, x in i)
if __name__ == "__main__": main(C22())
