import sys, os, random; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
# values with equivalent spellings: keyword -> [(canonical, [spellings accepted when archiving], [spellings in a request])]
SP = {
 "time": [("0000", ["0000"], ["0000", "00", "0", "00:00", "00:00:00"]), ("0600", ["0600"], ["0600", "06", "6", "06:00"]), ("1200", ["1200"], ["1200", "12", "12:00"]), ("0630", ["0630"], ["0630", "06:30"])],
 "step": [("0", ["0", "00", "0h"], ["0", "00", "0h"]), ("6", ["6", "06", "360m", "6h"], ["6", "06", "360m", "6h"]), ("24", ["24", "1d", "24h"], ["24", "1d", "024"]), ("30m", ["30m"], ["30m", "30m"]), ("6-12", ["6-12", "06-12"], ["6-12", "06-12", "6h-12h"])],
 "lev": [("500", ["500", "500.0", "5e2"], ["500", "500.0", "500.", "5e2"]), ("0.5", [".5", "0.5", "0.50"], ["0.5", ".5", "0.500"]), ("1", ["1", "1.0"], ["1", "1.0", "01"]), ("-2.25", ["-2.25"], ["-2.25", "-2.250"])],
 "mon": [("1", ["1", "jan", "01"], ["1", "jan", "01"]), ("12", ["12", "dec"], ["12", "dec"]), ("2", ["feb", "2"], ["feb", "02"])],
 "day": [("0115", ["jan-15", "2020-01-15"], ["jan-15", "20200115", "2020-01-15"]), ("1201", ["dec-1", "dec-01"], ["dec-1", "dec-01"]), ("0229", ["feb-29"], ["feb-29", "20200229"])],
 "ab": [("abc", ["abc", "abcdef"], ["abc", "abcd", "abcxyz"]), ("xy", ["xy"], ["xy"]), ("abd", ["abd"], ["abd", "abdc"])],
 "number": [("1", ["1", "01"], ["1", "01", "+1"]), ("20", ["20"], ["20", "020"]), ("2", ["2", "002"], ["2"])],
 "date": [("20200101", ["20200101", "2020-01-01"], ["20200101", "2020-01-01"]), ("20210228", ["20210228", "2021-02-28"], ["20210228", "2021-02-28", "2021-059"])],
 "nm": [("oper", ["oper", "OPER", "Oper"], ["oper", "OPER", "oPEr"]), ("o-1", ["o-1", "O-1"], ["o-1", "O-1"])],
}
HEAD = "time:Time;\nstep:Step;\nlev:Double;\nmon:ClimateMonthly;\nday:ClimateDaily;\nab:First3;\ndate:Date;\nnumber:Integer;\nexpver:Expver;\n"
def vals(k): return [x[0] for x in SP[k]]
TF = [
 Fam("typed-a", HEAD + "[cl, expver, date, time, ab?\n [ty, mon?\n  [step, lev?, number?, nm]]]\n",
   [[K(0,"cl",["od","rd"]), K(0,"expver",["0001","abcd"]), K(0,"date",["20200101","20210228"]), K(0,"time",vals("time")[:3]), K(0,"ab",vals("ab"),True), K(1,"ty",["an","fc"]), K(1,"mon",vals("mon"),True),
     K(2,"step",vals("step")[:4]), K(2,"lev",vals("lev"),True), K(2,"number",["1","20"],True), K(2,"nm",vals("nm"))]]),
 Fam("typed-b", HEAD + "[cl=od, nm, mon, day?\n [ab, ty=an [time, lev]]\n [ab, ty=fc, step? [time, number?, pa]]]\n[cl=rd, nm, lev\n [time, step\n  [day, pa?]]]\n",
   [[K(0,"cl",["od"]), K(0,"nm",vals("nm")), K(0,"mon",vals("mon")), K(0,"day",vals("day"),True), K(1,"ab",vals("ab")), K(1,"ty",["an"]), K(2,"time",vals("time")), K(2,"lev",vals("lev"))],
    [K(0,"cl",["od"]), K(0,"nm",vals("nm")), K(0,"mon",vals("mon")), K(0,"day",vals("day"),True), K(1,"ab",vals("ab")), K(1,"ty",["fc"]), K(1,"step",vals("step")[:4],True), K(2,"time",vals("time")), K(2,"number",["1","2"],True), K(2,"pa",["t","u"])],
    [K(0,"cl",["rd"]), K(0,"nm",vals("nm")), K(0,"lev",vals("lev")), K(1,"time",vals("time")), K(1,"step",vals("step")[:4]), K(2,"day",vals("day")), K(2,"pa",["t","u"],True)]]),
 Fam("typed-c", "[cl, stp:Step, lv:Double\n [ty, tm:Time?\n  [step:Step, st2:Step?, nm]]]\n",
   [[K(0,"cl",["od","rd"]), K(0,"stp",vals("step")), K(0,"lv",vals("lev")), K(1,"ty",["an"]), K(1,"tm",vals("time"),True), K(2,"step",vals("step")), K(2,"st2",vals("step")[:3],True), K(2,"nm",vals("nm"))]]),
]
SP["stp"] = SP["st2"] = SP["step"]; SP["lv"] = SP["lev"]; SP["tm"] = SP["time"]
FOREIGN = {"time": ["2300", "23"], "step": ["99", "7"], "lev": ["17.5", "3"], "mon": ["7", "jul"], "day": ["mar-03"], "ab": ["zzz", "zzzz"], "nm": ["enfo"], "date": ["19990101"], "number": ["77"], "expver": ["zzzz"], "stp": ["98"], "st2": ["97"], "lv": ["99.5"], "tm": ["2200"]}
# a retrieval gives climatological days as dates
INS = {"day": {"0115": ["20200115", "2020-01-15"], "1201": ["20201201", "2021-12-01"], "0229": ["20200229"]}}
FOREIGNK = {"zz": ["1"], "unknown": ["2", "3"]}

def make_request(rnd, fam, pool):
    """[[keyword, canonical values, spelled values]]: values of some stored fields and others, in any order and spelling."""
    kxs = rnd.sample(pool, min(len(pool), rnd.randint(1, 3))); br = fam.branches[kxs[0][0]]; r = {}
    p = rnd.choice([.1, .25, .5, .9]); other = rnd.choice([0, .2, .5])
    for k in br:
        if rnd.random() > p: continue
        vs = {key_of(fam, kx)[k[1]] for kx in kxs if k[1] in key_of(fam, kx)} | {v for v in k[3] if rnd.random() < other}
        sp = []
        for v in sorted(vs):
            opts = next((x[2] for x in SP.get(k[1], []) if x[0] == v), [v])
            for _ in range(rnd.choice([1, 1, 1, 2])): sp.append(rnd.choice(opts))
        if not sp or rnd.random() < .15: sp.append(rnd.choice(FOREIGN.get(k[1], ["nosuch"])))
        if rnd.random() < .05 and k[1] not in SP: sp += ["v%d" % i for i in range(rnd.randint(20, 200))]
        rnd.shuffle(sp); r[k[1]] = (sorted(vs), sp)
    if rnd.random() < .05: r["zz"] = ([], ["1"])
    ks = sorted(r); rnd.shuffle(ks)
    return [[k, r[k][0], r[k][1]] for k in ks]
SEED32 = st.integers(0, 1 << 30)
@st.composite
def cases(draw):
    fi = draw(st.integers(0, len(TF) - 1)); fam = TF[fi]
    pool = draw(pools(fam, max_size=9))
    sp = []
    for kx in pool:
        s = {}
        for k, v in key_of(fam, kx).items():
            opts = next((x[1] for x in SP.get(k, []) if x[0] == v), [v]); s[k] = draw(st.sampled_from(opts))
        sp.append(s)
    flush = draw(st.lists(st.booleans(), min_size=len(pool), max_size=len(pool)))
    reqs = [make_request(random.Random(x), fam, pool) for x in draw(st.lists(SEED32, min_size=2, max_size=6))]
    ins = draw(st.lists(st.tuples(st.lists(st.integers(0, len(pool) - 1), min_size=1, max_size=4, unique=True), SEED32), max_size=3))
    return {"fam": fi, "opt": draw(st.integers(0, len(OPTS) - 1)), "pool": pool, "sp": sp, "flush": flush, "reqs": reqs, "ins": [list(x) for x in ins]}

class C03(Check):
    prop = "C03"; quick = 4000; thorough = 120000
    rule = ("cases: fields archived under random equivalent spellings of typed values (three schemas, several rules, optional keywords at each level), listed with requests naming random subsets of the keywords with "
            "several values in any order and spelling (also repeated, foreign, or none present), and inspected with multi-valued full requests; non-trivial: some request selects some but not all of the fields")
    def strategy(self): return cases()
    def run(self, c):
        fam = TF[c["fam"]]; on, user, env = OPTS[c["opt"]]; part = False; spelled = False
        with Scratch() as sc:
            w = World(sc, fam, user, env)
            try:
                for kx, s, f in zip(c["pool"], c["sp"], c["flush"]):
                    w.archive(0, kx, 20, key=s); spelled = spelled or s != key_of(fam, kx)
                    if f: w.flush(0)
                w.closeall(); vis = w.m.visible()
                d, h = w.reader()
                for q in c["reqs"]:
                    req = {k: sp for k, cv, sp in q}; canon = {k: cv for k, cv, sp in q}
                    want = {i for i in vis if selected(i, canon)}
                    part = part or (bool(want) and want != set(vis))
                    es = listing(d, h, [[k, sp] for k, cv, sp in q], "dedup", True)
                    got = [elem_ident(e) for e in es]
                    if sorted(got) != sorted(want): raise Violation("list %s gives %s, expected %s" % (req, show(sorted(got), 1200), show(sorted(want), 1200)))
                    for e in es:
                        i = elem_ident(e)
                        if elem_levels(e) != tuple(ident(x) for x in w.m.levels[i]): raise Violation("list %s: levels of %s are %s" % (req, i, e["keys"]))
                        if "data" not in e or not same(e["data"], vis[i].data()): raise Violation("list %s: wrong location for %s" % (req, i))
                    for lv in (1, 2):
                        es = listing(d, h, [[k, sp] for k, cv, sp in q], "dedup", level=lv)
                        trunc = lambda i: tuple(ident(x) for x in w.m.levels[i][:lv])
                        fits = lambda i: all(v in canon[k] for x in w.m.levels[i][:lv] for k, v in x.items() if k in canon)
                        got = [elem_levels(e)[:lv] for e in es]
                        if not ({trunc(i) for i in want} <= set(got) <= {trunc(i) for i in vis if fits(i)}) or len(set(got)) != len(got):
                            raise Violation("list %s at level %d gives %s; fields selected: %s" % (req, lv, show(got, 1200), show(sorted(want), 1200)))
                ranges = any("-" in v for kx in c["pool"] for k, v in key_of(fam, kx).items() if k in ("step", "stp", "st2"))     # requested steps match ranges by their end
                for ixs, seed in c["ins"] if not ranges else []:
                    rnd = random.Random(seed); ids = [ident(key_of(fam, c["pool"][x])) for x in ixs]
                    canon = one_request(ids); req = {}
                    for k, vs in canon.items():
                        sp = [rnd.choice(INS[k][v] if k in INS else next((x[2] for x in SP.get(k, []) if x[0] == v), [v])) for v in vs]
                        if rnd.random() < .3 and k not in ("step", "day"): sp.append(rnd.choice(FOREIGN.get(k, ["nosuch"])))
                        rnd.shuffle(sp); req[k] = sp
                    want = matching_retrieve(w, canon)
                    got = [elem_ident(e) for e in d.ok("inspect", h=h, req=req)["elems"]]
                    if sorted(got) != sorted(want): raise Violation("inspect %s gives %s, expected %s" % (req, show(sorted(got), 1200), show(sorted(want), 1200)))
                    r = d.ok("retrieve", h=h, req=req); blob = rbytes(r)
                    if not segments(blob, [vis[i].data() for i in want]): raise Violation("retrieve %s: %d bytes are not those of %s" % (req, len(blob), want))
                w.done(d, h)
            finally: w.cleanup()
        return {"labels": [fam.name, on] + (["partial"] if part else []) + (["spelled"] if spelled else []), "nontrivial": part}
if __name__ == "__main__": main(C03())
