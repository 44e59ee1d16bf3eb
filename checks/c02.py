import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *

def compare(got, want, what):
    g, x = Counter(got), Counter(want)
    if g != x:
        raise Violation("%s: unexpected %s; missing %s" % (what, show(list((g - x).elements())), show(list((x - g).elements()))))
def loc(e): return (elem_ident(e), e["uri"], e["off"], e["len"])

def check_listing(w, req):
    d, h = w.reader(); m = w.m; nd = 0
    full = listing(d, h, req, "full", True); ded = listing(d, h, req, "dedup", True); dup = listing(d, h, req, "dups", True)
    vis = {i: r for i, r in m.visible().items() if selected(i, req)}
    allc = [(i, r) for i, hs in m.hist.items() if selected(i, req) for r in hs]
    for name, es in (("full", full), ("default", ded), ("duplicates", dup)):
        for e in es:
            if "data" not in e: raise Violation("%s listing of %s: element cannot be read: %s" % (name, req, show(e)))
            if e["data"]["len"] != e["len"]: raise Violation("%s listing: length %d but %d bytes are read: %s" % (name, e["len"], e["data"]["len"], show(e)))
            i = elem_ident(e)
            if i not in m.levels or tuple(ident(x) for x in m.levels[i]) != elem_levels(e): raise Violation("%s listing of %s: identifier %s was never archived (or has other levels)" % (name, req, e["keys"]))
    md = lambda es: [(elem_ident(e), e["len"], e["data"]["md5"]) for e in es]
    mr = lambda rs: [(i, r.n, hashlib.md5(r.data()).hexdigest()) for i, r in rs]
    compare(md(ded), mr(vis.items()), "default listing of %s" % req)
    compare(md(full), mr(allc), "full listing of %s" % req)
    compare([loc(e) for e in full], [loc(e) for e in ded] + [loc(e) for e in dup], "full listing of %s against default plus duplicates" % req)
    for e in full:
        if w.notime: continue
        i = elem_ident(e); rs = [r for r in m.hist[i] if hashlib.md5(r.data()).hexdigest() == e["data"]["md5"] and r.n == e["len"]]
        if not any(r.t0 <= e["ts"] <= r.t2 for r in rs):
            raise Violation("timestamp %d of %s is outside its archive's time %s" % (e["ts"], i, [(r.t0, r.t1, r.t2) for r in rs]))
    byid = {elem_ident(e): e for e in ded}
    for i in sorted(vis):
        r = d.ok("inspect", h=h, req={k: [v] for k, v in i})["elems"]
        r = [e for e in r if elem_ident(e) == i]
        if len(r) != 1 or loc(r[0]) != loc(byid[i]) or r[0]["ts"] != byid[i]["ts"]: raise Violation("inspect of %s gives %s, the listing %s" % (i, show(r), show(byid[i])))
    # truncated listings: at least the truncations of the selected fields, at most the entries that do not contradict the request
    for lv in (1, 2):
        es = listing(d, h, req, "dedup", level=lv)
        trunc = lambda i: tuple(ident(x) for x in m.levels[i][:lv])
        fits = lambda i: all(v in req[k] for x in m.levels[i][:lv] for k, v in x.items() if k in req)
        want = {trunc(i) for i in vis}
        may = {trunc(i) for i in m.levels if fits(i) and (lv == 1 or m.hist.get(i))}    # a database is listed from its first archive on
        got = [elem_levels(e)[:lv] for e in es]
        if not (want <= set(got) <= may): raise Violation("listing of %s at level %d: %s, expected %s" % (req, lv, show(sorted(got)), show(sorted(want))))
        if len(set(got)) != len(got): raise Violation("listing of %s at level %d repeats an entry: %s" % (req, lv, show(sorted(got))))
    w.done(d, h)
    return len(dup)
@st.composite
def cases(draw):
    c = draw(histories(mop=("a", "a", "a", "a", "f", "f", "c")))
    c["reqs"] = draw(st.lists(sub_requests(FAMS[c["fam"]]), min_size=0, max_size=2))
    c["mid"] = draw(st.integers(0, len(c["ops"])))
    return c

class C02(Check):
    prop = "C02"; quick = 2600; thorough = 80000
    rule = ("cases: random overwrite histories (up to two writers, sessions, flushes) listed in the three modes, three depths and by inspect, in the middle and at the end; "
            "non-trivial: the full listing holds at least one superseded copy")
    def strategy(self): return cases()
    def run(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; nd = 0
        with Scratch() as sc:
            w = World(sc, fam, user, env)
            try:
                for n, op in enumerate(c["ops"]):
                    step(w, c, op)
                    if n == c["mid"]: nd += check_listing(w, {})
                for x in list(w.w): w.flush(x)
                nd += check_listing(w, {})
                w.closeall()
                nd += check_listing(w, {})
                for r in c["reqs"]: check_listing(w, r)
            finally: w.cleanup()
        return {"labels": [fam.name, on] + (["duplicates"] if nd else []), "nontrivial": nd > 0}
if __name__ == "__main__": main(C02())
