import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
@st.composite
def cases(draw):
    fi = draw(st.integers(0, len(FAMS) - 1)); fam = FAMS[fi]; pool = draw(pools(fam, 1, 6)); ix = st.integers(0, len(pool) - 1)
    a = st.tuples(st.just("a"), ix, st.one_of(st.integers(1, 60), st.integers(1, 3000), st.sampled_from([70000])))
    prog = st.lists(st.one_of(a, a, a, st.just(("f",)), st.just(("c",))), min_size=2, max_size=14)
    groups = draw(st.lists(st.lists(prog, min_size=1, max_size=3), min_size=2, max_size=3))       # processes of threads
    rd = draw(st.lists(st.one_of(st.tuples(st.just("l"), st.sampled_from(["dedup", "full"])), st.tuples(st.just("r"), ix)), max_size=8))
    return {"fam": fi, "opt": draw(st.integers(0, len(OPTS) - 1)), "pool": pool, "before": draw(st.integers(0, 2)), "groups": [[[list(o) for o in p] for p in g] for g in groups], "readers": [list(x) for x in rd]}
class C06(Check):
    prop = "C06"; quick = 2400; thorough = 60000; deterministic = False; jobs = 4; shrink_s = 60
    rule = ("cases: two or three processes of one to three threads each archive and flush into the same databases, indexes and identifiers at the same time (databases new or existing), while a further process lists and retrieves; "
            "afterwards every flushed value must be accounted for; non-trivial: two writers flush into one database and some identifier is written by two of them")
    assumptions = ["interleavings are those the operating system produces; a failure is retried up to 25 times to be believed"]
    def strategy(self): return cases()
    def run(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]
        with Scratch() as sc:
            w = World(sc, fam, user, env); pid = 0; archived = defaultdict(set); flushed = []; last = defaultdict(dict); md = lambda b: (len(b), hashlib.md5(b).hexdigest())
            try:
                keys = [key_of(fam, k) for k in c["pool"]]
                for j in range(c["before"]):
                    r = w.archive(0, c["pool"][j % len(keys)], 25); archived[ident(keys[j % len(keys)])].add(md(r.data())); w.flush(0)
                w.closeall()
                for i, h in w.m.hist.items():
                    for r in h: flushed.append((i, md(r.data())))
                    last[i]["before"] = md(h[-1].data())
                pid = 1000; sends = []; nth = 0; dbs = defaultdict(set)
                for gi, g in enumerate(c["groups"]):
                    branches = []
                    for ti, p in enumerate(g):
                        nth += 1; ops = []; pend = OrderedDict(); who = "%d.%d" % (gi, ti); ses = []; h = None; n = 0
                        def commit():
                            for i, m in pend.items(): flushed.append((i, m)); ses.append((i, m)); last[i][who] = m; dbs[i].add(who)
                            pend.clear()
                        def endses():
                            if w.subtoc:        # the session's own superseded copies are consolidated away
                                l = dict(ses)
                                for x in ses: flushed.remove(x)
                                for x in l.items(): flushed.append(x)
                            ses.clear()
                        for o in p + [["c"]]:
                            if o[0] == "a" and h is None: n += 1; h = w.name("t%s.%d" % (who, n)); ops.append({"op": "open", "h": h, "config": w.cfg, "user": json.dumps(user)})
                            if o[0] == "a":
                                pid += 1; i = ident(keys[o[1]]); m = md(fill(pid, o[2])); archived[i].add(m); pend.pop(i, None); pend[i] = m
                                ops.append({"op": "archive", "h": h, "key": keys[o[1]], "data": {"id": pid, "len": o[2]}})
                            elif h is not None and o[0] == "f": ops.append({"op": "flush", "h": h}); commit()
                            elif h is not None: ops.append({"op": "close", "h": h}); commit(); endses(); h = None
                        branches.append(ops)
                    sends.append((w.drv(2 + gi), branches))
                rops = [{"op": "open", "h": w.name("rr"), "config": w.cfg}]
                for o in c["readers"]:
                    if o[0] == "l": rops.append({"op": "list", "h": w.name("rr"), "req": {}, "all": True, "mode": o[1], "read": True})
                    else: rops.append({"op": "open", "h": w.name("rr"), "config": w.cfg}); rops.append({"op": "retrieve", "h": w.name("rr"), "req": {k: [v] for k, v in keys[o[1]].items()}})
                sends.append((w.drv(1), [rops]))
                for d, b in sends: d.ok("ping")
                for d, b in sends: d.send({"op": "parallel", "branches": b})
                outs = [d.recv() for d, b in sends]
                for (d, b), out in zip(sends[:-1], outs):
                    for ops, res in zip(b, out["out"]):
                        for o, x in zip(ops, res):
                            if not x["ok"]: raise Violation("concurrent %s fails: %s %s" % (o["op"], x.get("err"), x.get("what")))
                for o, x in zip(rops, outs[-1]["out"][0]):
                    if not x["ok"]: raise Violation("%s during concurrent writing fails: %s %s" % (o["op"], x.get("err"), x.get("what")))
                    if o["op"] == "retrieve" and x["len"]:
                        want = {k: v[0] for k, v in o["req"].items()}
                        ok = {m for i in archived for m in archived[i] if set(i) <= set(want.items())}
                        if (x["len"], x["md5"]) not in ok: raise Violation("retrieval of %s during concurrent writing gives bytes never archived under it" % want)
                    if o["op"] == "list":
                        for e in x["elems"]:
                            if "data" not in e: raise Violation("during concurrent writing a listed field cannot be read: %s" % show(e))
                            if (e["data"]["len"], e["data"]["md5"]) not in archived[elem_ident(e)]: raise Violation("during concurrent writing %s is listed with bytes never archived under it" % (elem_ident(e),))
                        if o["mode"] == "dedup" and len({elem_ident(e) for e in x["elems"]}) != len(x["elems"]): raise Violation("during concurrent writing an identifier is listed twice")
                d, h = w.reader(1)
                full = Counter((elem_ident(e), (e["data"]["len"], e["data"]["md5"])) for e in listing(d, h, None, "full", True) if "data" in e); want = Counter(flushed)
                if full != want: raise Violation("after concurrent writing: lost %s, unexpected %s" % (show(list((want - full).elements())), show(list((full - want).elements()))))
                ded = {elem_ident(e): (e["data"]["len"], e["data"]["md5"]) for e in listing(d, h, None, "dedup", True)}
                if set(ded) != set(last): raise Violation("after concurrent writing the default listing has %s, flushed were %s" % (show(sorted(ded)), show(sorted(last))))
                for i, m in ded.items():
                    if m not in last[i].values() or (len(last[i]) > 1 and m == last[i].get("before")): raise Violation("after concurrent writing %s holds %s, the last values of its writers are %s" % (i, m, last[i]))
                    if any(set(j) < set(i) for j in last): continue
                    x = d.ok("retrieve", h=h, req={k: [v] for k, v in i})
                    if (x["len"], x["md5"]) != m: raise Violation("after concurrent writing the retrieval of %s differs from its listing" % (i,))
                w.done(d, h)
            finally: w.cleanup()
        two = any(len(s) > 1 for s in dbs.values())
        return {"labels": [fam.name, on, "%d threads" % nth] + (["new database"] if not c["before"] else []), "nontrivial": two}
if __name__ == "__main__": main(C06())
