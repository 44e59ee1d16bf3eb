import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
NM = st.sampled_from(["step", "param", "x"]); VV = st.sampled_from(["0", "1", "10", "2", "", "abc", "12-24"])
KD = st.dictionaries(NM, VV, min_size=1, max_size=3); S = st.integers(0, 3)
@st.composite
def algebra(draw):
    op = st.one_of(*[st.tuples(st.just("ins"), S, KD)] * 4, st.tuples(st.just("insl"), S, NM, st.lists(VV, min_size=1, max_size=5)), st.tuples(st.just("merge"), S, S), st.tuples(st.just("merge"), S, S), st.tuples(st.just("wipe"), S), st.tuples(st.just("enc"), S, S, st.sampled_from([2, 3])), st.tuples(st.just("move"), S, S),
                   st.tuples(st.just("eq"), S, S), st.tuples(st.just("contains"), S, KD), st.tuples(st.just("pm"), S, st.dictionaries(NM, st.lists(VV.filter(bool), min_size=1, max_size=3, unique=True), max_size=3)), st.tuples(st.just("has"), S, NM))
    return {"kind": "algebra", "ops": [list(o) for o in draw(st.lists(op, min_size=2, max_size=25))]}
@st.composite
def cases(draw):
    c = draw(histories(mop=("a", "a", "a", "a", "f", "c"))); c["kind"] = "archive"
    c["reqs"] = draw(st.lists(sub_requests(FAMS[c["fam"]]), min_size=1, max_size=4)); c["mid"] = draw(st.integers(0, len(c["ops"]))); return c
def axd(a): return {k: sorted(v) for k, v in a.items()}
def vals(levels):
    r = defaultdict(set)
    for lv in levels:
        for k, v in lv.items():
            if v != "": r[k].add(v)
    return r
def check_axes(w, req):
    d, h = w.reader(); m = w.m; labels = set()
    flushed = [i for i, hs in m.hist.items() if hs]; fits = lambda lv: all(v in req[k] for k, v in lv.items() if k in req and v != "")
    full = lambda lv, ks: all(k in lv for k in req if k in ks)
    for level in (1, 2, 3):
        a = dict(h=h, req=req, level=level)
        if not req: a["all"] = True
        els = d.ok("axesit", **a)["elems"]; tot = d.ok("axes", **a)["axes"]; union = defaultdict(set); where = "axes of %s at level %d" % (req, level)
        for k, v in tot.items():
            if len(set(v)) != len(v): raise Violation("%s: value repeated: %s" % (where, tot))
        seen = Counter()
        for e in els:
            dbk = ident(dict(map(tuple, e["key"]))); seen[dbk] += 1
            if level == 1 and not any(ident(m.levels[i][0]) == dbk for i in m.levels): raise Violation("%s: database %s was never archived" % (where, dbk))
            for k, v in e["axes"].items(): union[k] |= set(v)
            mine = [i for i in flushed if ident(m.levels[i][0]) == dbk]
            # indexes that certainly contribute: those with a selected field; that may: those whose identifiers fit and whose values overlap
            groups = defaultdict(list)
            for i in mine: groups[ident(m.levels[i][1])].append(i)
            may = {k: set(v) for k, v in vals([dict(dbk)]).items()}; must = {k: set(v) for k, v in vals([dict(dbk)]).items()}
            exact = level < 2
            if level >= 2:
                for g, ids in groups.items():
                    sel = [i for i in ids if selected(i, req)]; ax = vals([m.levels[i][2] for i in ids]); br = {w.m.kx[i][0] for i in ids}
                    datum = {k for i in ids for b in [w.fam.branches[m.kx[i][0]]] for (l, k, _, _) in b if l == 2}
                    over = all(not (k in req) or (set(req[k]) & ax[k]) for k in datum)
                    for who, cond in ((must, bool(sel)), (may, fits(dict(g)) and over)):
                        if cond:
                            # every index with a selected field shows all its values; without a restriction on fields that is the whole group
                            src = ids if who is may or not (set(req) & datum) else sel
                            for k, v in vals([m.levels[i][1] for i in src] + ([m.levels[i][2] for i in src] if level == 3 else [])).items(): who.setdefault(k, set()).update(v)
            got = {k: set(v) - {""} for k, v in e["axes"].items()}
            for k in must:
                if must[k] - got.get(k, set()): raise Violation("%s: database %s lacks the value(s) %s of %s: %s" % (where, dict(dbk), sorted(must[k] - got.get(k, set())), k, show(e["axes"])), level=level)
            for k in got:
                if got[k] - may.get(k, set()): raise Violation("%s: database %s has the value(s) %s of %s, which occur in no matching index" % (where, dict(dbk), sorted(got[k] - may.get(k, set())), k), level=level)
            if level == 3 and any(len(v) > 1 for v in got.values()): labels.add("many values")
        if any(n > 1 for n in seen.values()): raise Violation("%s: database reported twice: %s" % (where, show(seen)))
        for i in flushed:
            if selected(i, req) and not seen[ident(m.levels[i][0])]: raise Violation("%s: nothing for the database of %s" % (where, i))
        for dbk in seen:
            if not fits(dict(dbk)): raise Violation("%s: database %s does not match" % (where, dbk))
        if {k: sorted(v) for k, v in union.items()} != axd(tot): raise Violation("%s: all axes %s differ from those per database %s" % (where, show(axd(tot)), show(dict(union))))
    w.done(d, h); return labels
class C12(Check):
    prop = "C12"; quick = 2400; thorough = 60000; targets = ("vdriver", "vcodec")
    rule = ("cases: (a) histories queried at three depths with partial requests, per database and merged; (b) sequences of operations on axis objects (insert, merge, encode/decode in each version, move, compare, match) against a model of sets; "
            "non-trivial: (a) some axis of a database has several values, (b) a merge or an encoding of a non-empty axis")
    def strategy(self): return st.one_of(cases(), cases(), algebra())
    def run(self, c): return self.algebra(c) if c["kind"] == "algebra" else self.archive(c)
    def archive(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; lab = set()
        with Scratch() as sc:
            w = World(sc, fam, user, env)
            try:
                for n, op in enumerate(c["ops"]):
                    step(w, c, op)
                    if n == c["mid"]: lab |= check_axes(w, {})
                for x in list(w.w): w.flush(x)
                lab |= check_axes(w, {}); w.closeall(); lab |= check_axes(w, {})
                for r in c["reqs"]: lab |= check_axes(w, r)
            finally: w.cleanup()
        return {"labels": ["archive", fam.name, on] + sorted(lab), "nontrivial": bool(lab)}
    def algebra(self, c):
        d = driver({}, exe="vcodec"); out = d.ok("axisops", ops=c["ops"])["out"]; m = [{} for _ in range(4)]; ro = [False] * 4; nt = False
        for o, r in zip(c["ops"], out):
            k, i = o[0], o[1]; x = m[i]; what = "%s after %s" % (o, show(c["ops"], 800)); refuse = False; want = None
            if k in ("ins", "insl", "merge", "wipe") and ro[i]: refuse = True
            elif k == "ins":
                for a, b in o[2].items(): x.setdefault(a, set()).add(b)
            elif k == "insl": x.setdefault(o[2], set()).update(o[3])
            elif k == "merge":
                for a, b in m[o[2]].items(): x.setdefault(a, set()).update(b)
                nt = nt or bool(m[o[2]])
            elif k == "wipe": m[i] = {}
            elif k == "enc":
                if not x and o[3] >= 3: refuse = True      # an index always has an axis
                else: m[o[2]] = {a: set(b) for a, b in x.items()}; ro[o[2]] = True; nt = nt or bool(x)
            elif k == "move": m[i] = {}; m[o[2]] = x; q = ro[i]; ro[i] = False; ro[o[2]] = q
            elif k == "eq": want = x == m[o[2]]
            elif k == "contains": want = all(a in o[2] and o[2][a] in b for a, b in x.items())
            elif k == "pm": want = all(a not in o[2] or bool(b & set(o[2][a])) for a, b in x.items())
            elif k == "has": want = o[2] in x
            if refuse:
                if "exc" not in r: raise Violation("%s is accepted" % what)
                if k == "enc": return {"labels": ["algebra", "stopped"], "nontrivial": nt}
            elif "exc" in r: raise Violation("%s fails: %s" % (what, r["exc"]))
            if want is not None:
                if r["v"] != want: raise Violation("%s gives %s" % (what, r["v"]))
                if k == "eq" and r["ne"] == r["v"]: raise Violation("%s: == and != agree" % what)
                if k == "contains" and r["p"] != all(a in x and b in x[a] for a, b in o[2].items()): raise Violation("%s: containsPartial gives %s" % (what, r["p"]))
                if k == "has" and want and sorted(r["vals"]) != sorted(x[o[2]]): raise Violation("%s: values %s" % (what, r["vals"]))
            if [axd(a) for a in r["all"]] != [axd({p: list(q) for p, q in a.items()}) for a in m]: raise Violation("%s: axes are %s, expected %s" % (what, show(r["all"]), show(m)))
        return {"labels": ["algebra"], "nontrivial": nt}
if __name__ == "__main__": main(C12())
