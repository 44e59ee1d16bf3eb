import sys, os, random, datetime; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
MON = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
def rdate(r): return datetime.date(1900, 1, 1) + datetime.timedelta(days=r.randrange(73000))
def dspell(r, d): return r.choice(["%04d%02d%02d" % (d.year, d.month, d.day), d.isoformat(), "%04d-%03d" % (d.year, d.timetuple().tm_yday)])
BADDATE = ["20201301", "20200230", "2020-13-01", "2020-02-30", "20210229"]
# per type: gen(r) -> (meaning, key material), spell(r, material) -> text, bad texts
def t_time():
    def spell(r, x):
        h, m = x; o = ["%02d%02d" % x, "%02d:%02d" % x, "%02d:%02d:00" % x, "%d:%02d" % x]
        if m == 0: o += ["%d" % h, "%02d" % h]
        if h < 10: o += ["%d%02d" % x] if h else []
        return r.choice(o)
    return (lambda r: (lambda x: (x, x))((r.randrange(24), r.choice([0, 0, 30, 59, r.randrange(60)])))), spell, ["24", "2400", "0660", "12:60", "abc", "-1", "1e", "1200x", "25:00"]
def dur(r, s):
    o = []
    if s % 3600 == 0:
        h = s // 3600; o += ["%d" % h, "%02d" % h, "%dh" % h, "%03d" % h]
        if h and h % 24 == 0: o += ["%dd" % (h // 24)]
    if s % 900 == 0 and s % 3600 and s < 3600 * 100: o += ["%g" % (s / 3600.)]
    if s % 60 == 0:
        o += ["%dm" % (s // 60)]
        if s > 3600 and s % 3600: o += ["%dh%dm" % (s // 3600, s % 3600 // 60), "%dh%02dm" % (s // 3600, s % 3600 // 60)]
    o += ["%ds" % s]
    return r.choice(o)
def t_step():
    def one(r): return r.choice([r.randrange(400) * 3600, r.randrange(400) * 3600, r.randrange(40) * 86400, r.randrange(2000) * 60, r.randrange(400) * 900, r.randrange(9000)])
    def gen(r):
        a = one(r)
        if r.random() < .3:
            b = a + r.choice([0, 3600, 21600, 86400, 1800]); x = (a, b) if b > a else a
            return x, x
        return a, a
    def spell(r, x):
        if isinstance(x, tuple): return dur(r, x[0]) + "-" + dur(r, x[1])
        return dur(r, x) if r.random() < .8 else (lambda s: s + "-" + s)(dur(r, x))
    return gen, spell, ["abc", "6x", "1-2-3"]
def t_double():
    def gen(r):
        if r.random() < .4: v = (r.randrange(-10 ** r.randint(1, 12), 10 ** r.randint(1, 12)), 0)
        else: v = (r.randrange(-10 ** r.randint(1, 6), 10 ** r.randint(1, 6)), -r.randint(1, 7))
        while v[0] and v[0] % 10 == 0 and v[1] < 0: v = (v[0] // 10, v[1] + 1)
        return (v if v[0] else (0, 0)), v
    def spell(r, v):
        m, e = v; s = "-" if m < 0 else r.choice(["", "", "+"]); d = str(abs(m))
        if e == 0: o = [d, d + ".0", d + ".", "0" + d, d + "e0", d + ".000"]; o += [d[:-1] + "e1", d[:-1] + "E+01"] if len(d) > 1 and d[-1] == "0" else []
        else:
            q = d.rjust(-e + 1, "0"); p = q[:e] + "." + q[e:]
            o = [p, p + "0", "0" + p, d + "e%d" % e, d + ".0e%d" % e] + ([p[1:]] if p.startswith("0.") else [])
        return s + r.choice(o)
    return gen, spell, ["abc", "1.5x", "1,5", "--1", "1 2", "x1", "1.2.3"]
def t_int():
    return (lambda r: (lambda x: (x, x))(r.randrange(-10 ** r.randint(0, 9), 10 ** r.randint(1, 12)))), (lambda r, x: ("-" if x < 0 else r.choice(["", "", "+"])) + r.choice(["", "", "0", "00"]) + str(abs(x))), ["x", "1.5", "1x", "--1", "0x10", "1e3", "1 2", "99999999999999999999999"]
def t_date(): return (lambda r: (lambda x: (str(x), x))(rdate(r))), dspell, BADDATE
def t_cm():
    def spell(r, m):
        return r.choice(["%d" % m, "%02d" % m, MON[m - 1], "%04d%02d%02d" % (r.randint(1900, 2100), m, r.randint(1, 28))])
    return (lambda r: (lambda x: (x, x))(r.randint(1, 12))), spell, ["0", "13", "foo", "12x", "jann", "00", "1jan", "-1"]
def t_cd():
    def gen(r): d = rdate(r); return (d.month, d.day), d
    def spell(r, d): return r.choice([dspell(r, d), dspell(r, d), "%s-%d" % (MON[d.month - 1], d.day), "%s-%02d" % (MON[d.month - 1], d.day)])
    return gen, spell, BADDATE + ["foo-1", "feb-30", "jan-0", "jan-32", "jan", "apr-31", "jan-1-1"]
def t_first3():
    A = "abcxyz12"
    def gen(r): x = "".join(r.choice(A) for _ in range(r.randint(1, 3))); return x, x
    return gen, (lambda r, x: x + ("".join(r.choice(A) for _ in range(r.randint(0, 4))) if len(x) == 3 else "")), []
def t_grid():
    def gen(r): x = tuple(r.choice(["1", "0.5", "2", "1.5"]) for _ in range(r.randint(1, 3))); return x, x
    return gen, (lambda r, x: r.choice("/+").join(x)), []
def t_word(up):
    A = "abcxyz019-._"
    def gen(r): x = "".join(r.choice(A) for _ in range(r.randint(1, 8))); return x, x
    return gen, (lambda r, x: "".join(r.choice([c, c.upper()]) for c in x) if up else x), []
def t_expver():
    A = "abcx019"
    def gen(r): x = "".join(r.choice(A) for _ in range(4)); return x, x
    return gen, (lambda r, x: x), []
def t_part(f): return (lambda r: (lambda x: (f(x), x))(rdate(r))), (lambda r, x: r.choice(["%04d%02d%02d" % (x.year, x.month, x.day), x.isoformat()])), BADDATE
T = {"Time": t_time(), "Step": t_step(), "Double": t_double(), "Integer": t_int(), "Date": t_date(), "ClimateMonthly": t_cm(), "ClimateDaily": t_cd(), "First3": t_first3(), "Grid": t_grid(),
     "Default": t_word(True), "Param": t_word(True), "Expver": t_expver(), "Year": t_part(lambda d: d.year), "Month": t_part(lambda d: d.month), "MonthOfDate": t_part(lambda d: d.month), "YearMonth": t_part(lambda d: (d.year, d.month))}
NOIDEM = {"Year", "Month", "MonthOfDate", "YearMonth", "ClimateDaily"}      # canonical values that are not themselves spellings of the type
E2E = ["Time", "Step", "Double", "Integer", "Date", "ClimateMonthly", "ClimateDaily", "First3", "Grid", "Default", "Param", "Expver"]
LV = ["[k:%s, a [b [c, z?]]]\n", "[a [k:%s, b? [c, z?]]]\n", "[a [b [k:%s, c, z?]]]\n", "k:%s;\n[a [b, k? [c]]]\n", "k:%s;\n[a [b [c, k?]]]\n"]

def archivable(t, s):
    """Spellings accepted when archiving; times and experiment versions are only accepted in canonical form."""
    return not (t == "Time" and not re.fullmatch(r"\d{4}", s))
def lookup(t, s):
    """Spellings accepted by a retrieval; a climatological day is then given by a date."""
    return not (t == "ClimateDaily" and not s[0].isdigit())
class C16(Check):
    prop = "C16"; quick = 4000; thorough = 150000; targets = ("vschema",)
    rule = ("cases: a value type, 40 values with two random spellings each compared pairwise in canonical form, invalid spellings, and an archive holding fields of two or three values that are archived, listed, "
            "retrieved and overwritten under random equivalent spellings, with the typed keyword at any level, required or optional; non-trivial: at least two spellings of a value differ as text")
    def strategy(self): return st.tuples(st.sampled_from(sorted(T)), st.sampled_from(E2E), st.integers(0, len(LV) - 1), st.integers(0, 1 << 40)).map(list)
    def run(self, c):
        t, te, lv, seed = c; r = random.Random(seed); gen, spell, bad = T[t]
        d = driver(exe="vschema")
        xs = [gen(r) for _ in range(40)]; ss = [(m, spell(r, x), spell(r, x)) for m, x in xs]
        texts = [s for m, a, b in ss for s in (a, b)]
        out = d.ok("typekey", type=t, kw="k", v=texts)["out"]; canon = {}
        for s, o in zip(texts, out):
            if "v" not in o: raise Violation("%s: %r is refused: %s" % (t, s, o["err"]))
            canon[s] = o["v"]
        bym = {}; byk = {}
        for m, a, b in ss:
            for s in (a, b):
                k = canon[s]
                if bym.setdefault(m, (k, s))[0] != k: raise Violation("%s: %r and %r mean the same but have the keys %r and %r" % (t, s, bym[m][1], k, bym[m][0]))
                if byk.setdefault(k, (m, s))[0] != m: raise Violation("%s: %r and %r mean different values but have the same key %r" % (t, s, byk[k][1], k))
        if t not in NOIDEM:
            for k, o in zip(sorted(byk), d.ok("typekey", type=t, kw="k", v=sorted(byk))["out"]):
                if o.get("v") != k: raise Violation("%s: the canonical form %r becomes %s" % (t, k, o))
        if t not in ("Param", "Grid"):
            q = [s for s in texts if lookup(t, s)]
            vs = [o.get("v", "").rstrip("|") for o in d.ok("typevalues", type=t, kw="k", v=q)["out"]]
            for s, v, o in zip(q, vs, d.ok("typekey", type=t, kw="k", v=vs)["out"]):
                if o.get("v") != canon[s]: raise Violation("%s: a request for %r looks for %r, the key of the value is %r" % (t, s, o, canon[s]))
        for s in bad:
            o = d.ok("typekey", type=t, kw="k", v=[s])["out"][0]
            if "v" in o: raise Violation("%s: invalid value %r is accepted as %r" % (t, s, o["v"]))
        return self.archive(te, lv, r, any(a != b for m, a, b in ss))
    def archive(self, t, lv, r, nt):
        gen, spell, bad = T[t]
        if t == "Param":     # only ever a field keyword; plain numbers, which no other parameter table rewrites
            gen = lambda r: (lambda x: (x, x))(r.choice(["129", "130", "133", "134", "151", "157", "167", "201"])); spell = lambda r, x: x; lv = 2 + lv % 2 * 2
        optional = lv >= 3
        vals = {}
        while len(vals) < r.choice([2, 2, 3]): m, x = gen(r); vals[m] = x
        with Scratch() as sc:
            d = driver(exe="vschema"); cfg = config(sc.write("schema", LV[lv] % t), [sc.mkdir("root")]); name = os.path.basename(sc.d)
            h = name + "w"; d.ok("open", h=h, config=cfg); rest = {"a": "1", "b": "2", "c": "3"}; cur = {}; pid = 0; rn = 0
            if optional and r.random() < .5: d.ok("archive", h=h, key=rest, data={"id": 999, "len": 30}); cur[None] = (999, 30)
            def put(m):
                nonlocal pid
                for _ in range(50):
                    s = spell(r, vals[m])
                    if archivable(t, s): break
                else: raise Skip()
                pid += 1; n = r.randint(20, 60); key = dict(rest, k=s); ks = list(key); r.shuffle(ks)
                d.ok("archive", h=h, key=[[k, key[k]] for k in ks], data={"id": pid, "len": n}); cur[m] = (pid, n); return s
            def get(m):
                nonlocal rn
                rn += 1; g = "%sr%d" % (name, rn); d.ok("open", h=g, config=cfg)
                for _ in range(50):
                    s = spell(r, vals[m])
                    if lookup(t, s): break
                else: raise Skip()
                x = d.ok("retrieve", h=g, req=dict({k: [v] for k, v in rest.items()}, k=[s]))
                if not same(x, fill(*cur[m])): raise Violation("%s at place %d: %r is not found as archived: %d bytes (%s), expected %s" % (t, lv, s, x["len"], bytes.fromhex(x.get("hex", ""))[:20], cur[m]))
                s = spell(r, vals[m])
                es = d.ok("list", h=g, req={"k": [s]}, mode="dedup", read=True)["elems"]
                if len(es) != 1 or not same(es[0]["data"], fill(*cur[m])): raise Violation("%s at place %d: listing of %r gives %s, expected the field of %s" % (t, lv, s, show(es), cur[m]))
                d.ok("close", h=g)
            ms = list(vals); unused = ms.pop() if len(ms) > 1 else None
            for m in ms: put(m)
            d.ok("flush", h=h)
            for m in ms: get(m)
            for m in ms:
                if r.random() < .5: put(m); d.ok("flush", h=h); get(m)
            # a value never archived, and invalid ones
            g = name + "x"; d.ok("open", h=g, config=cfg)
            if unused is not None and not optional:
                s = next((s for s in (spell(r, vals[unused]) for _ in range(50)) if lookup(t, s)), None)
                if s is not None:
                    x = d.ok("retrieve", h=g, req=dict({k: [v] for k, v in rest.items()}, k=[s]))
                    if x["len"]: raise Violation("%s at place %d: %r was never archived but %d bytes are retrieved, archived: %s" % (t, lv, s, x["len"], ms))
                es = d.ok("list", h=g, req={"k": [spell(r, vals[unused])]}, mode="dedup")["elems"]
                if es: raise Violation("%s at place %d: a listing of a value never archived gives %s" % (t, lv, show(es)))
            for s in r.sample(bad, min(2, len(bad))):
                x = d.raw("archive", h=h, key=dict(rest, k=s), data={"id": 7, "len": 7})
                if x.get("ok"): raise Violation("%s at place %d: invalid value %r is archived" % (t, lv, s))
                if not lookup(t, s): continue
                x = d.raw("retrieve", h=g, req=dict({k: [v] for k, v in rest.items()}, k=[s]))
                if x.get("ok") and x["len"] and not (optional and None in cur and same(x, fill(*cur[None]))): raise Violation("%s at place %d: a retrieval of the invalid value %r gives %d bytes" % (t, lv, s, x["len"]))
            d.ok("close", h=g); d.ok("flush", h=h); d.ok("close", h=h)
            d.ok("open", h=g, config=cfg)
            es = d.ok("list", h=g, req={}, all=True, mode="dedup", read=True)["elems"]; d.ok("close", h=g)
            if sorted(e["data"]["md5"] for e in es) != sorted(hashlib.md5(fill(*x)).hexdigest() for x in cur.values()): raise Violation("%s at place %d: the listing is %s, expected %s" % (t, lv, show(es, 1000), cur))
        return {"labels": [t + " keys", t, "place %d" % lv], "nontrivial": nt}
if __name__ == "__main__": main(C16())
