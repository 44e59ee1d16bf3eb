import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
import random
from grib import message
from c11 import SCHEMA, tool
ENVS = [("default", {}), ("seekable", {"FDB_SEEKABLE_DATA_HANDLE": "1"}), ("dedup", {"FDB_DEDUPLICATE_FIELDS": "1"}), ("seekable dedup", {"FDB_SEEKABLE_DATA_HANDLE": "1", "FDB_DEDUPLICATE_FIELDS": "1"})]
SEQ = st.lists(st.one_of(*[st.tuples(st.just("read"), st.integers(0, 8), st.integers(0, 30))] * 5, *[st.tuples(st.just("seek"), st.integers(0, 6), st.integers(-2, 2))] * 3, st.tuples(st.just("skip"), st.integers(0, 4), st.integers(0, 30)),
    *[st.tuples(st.just(x)) for x in ("rewind", "position", "position", "size", "estimate", "reopen", "canSeek", "end", "end")]), min_size=1, max_size=14)
@st.composite
def cases(draw):
    env = draw(st.sampled_from([0, 0, 1, 1, 1, 2, 3])); grib = draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1])) == 1
    fi = 2 if env > 1 else draw(st.sampled_from([0, 1, 2, 5, 6])); fam = FAMS[fi]
    pool = draw(pools(fam, 2, 8, (1, 1, 2, 2, 0))); ix = st.integers(0, len(pool) - 1); w = st.integers(0, 1)
    ops = draw(st.lists(st.one_of(*[st.tuples(st.just("a"), w, ix, st.one_of(st.integers(1, 30), st.integers(1, 400), st.sampled_from([4096, 70000])))] * 4, st.tuples(st.just("f"), w), st.tuples(st.just("c"), w)), min_size=2, max_size=16))
    hk = st.sampled_from(["uri", "uris", "uris", "list", "inspect", "retrieve", "retrieve", "retrieve"])
    hs = draw(st.lists(st.tuples(hk, st.booleans(), st.lists(ix, min_size=1, max_size=6), SEQ).map(list), min_size=1, max_size=5))
    return {"env": env, "grib": grib, "opt": draw(st.integers(0, 4)), "fam": fi, "pool": pool, "ops": [list(o) for o in ops], "handles": [[k, s, i, [list(o) for o in q]] for k, s, i, q in hs]}
class C21(Check):
    prop = "C21"; quick = 2600; thorough = 60000; targets = ("vdriver", "vgrib", "fdb-overlay")
    rule = ("cases: histories of two writers (so fields lie adjacent, apart and in several files, and may be masked), then handles of lists of locations (any order, repeated, sorted or not), listings, inspections and retrievals, "
            "under each handle option, driven by generated sequences of open, read, seek, skip, rewind, position, size, close and re-open; also handles that rewrite GRIB messages (overlays); non-trivial: a handle of two or more fields with a seek or rewind or with reads that cross fields")
    def strategy(self): return cases()
    def drive(self, d, a, B, bounds, seq, what, full, seekable, end=True):
        """Drive one handle and compare with a model of a byte stream over B."""
        n = len(B); pos = 0; ops = [["open"]]; exp = [("v", n)]; moved = False; crossed = False; back = not seekable
        def field(p):
            k = 0
            for b in bounds:
                if b <= p: k = b
            return k
        for s in seq:
            if s[0] == "read":
                r = [s[2], s[2] * 7, n, n - pos, max(0, n - pos - 1), n + 5, 1, bounds[s[2] % len(bounds)], 50000][s[1]]; ops.append(["read", r]); exp.append(("read", pos, min(r, n - pos), r)); pos += min(r, n - pos) if full else 0
                if not full: exp[-1] = ("any", pos, min(r, n - pos), r); return ops, exp      # short reads: the rest depends on them (driven step by step)
            elif s[0] in ("seek", "skip", "rewind"):
                if s[0] == "seek": o = [bounds[abs(s[2] * 3) % len(bounds)] + s[2], n + s[2], s[2], pos + s[2], field(pos) + s[2], n * 2 // 3 + s[2], n // 3 + s[2]][s[1]]
                elif s[0] == "skip": o = pos + [0, 1, s[2], s[2] * 7, n - pos][s[1]]
                else: o = 0
                if not 0 <= o <= n: continue
                if not seekable and (o < field(pos) if pos < n else o < n): continue      # such a handle only moves forward
                if not seekable and s[0] == "rewind" and pos >= (bounds[1] if len(bounds) > 1 else n): continue
                ops.append({"seek": ["seek", o], "skip": ["skip", o - pos], "rewind": ["rewind"]}[s[0]]); exp.append(("v", o) if s[0] == "seek" else None); pos = o
            elif s[0] == "position": ops.append(["position"]); exp.append(("v", pos))
            elif s[0] in ("size", "estimate"): ops.append([s[0]]); exp.append(("v", n))
            elif s[0] == "canSeek": ops.append(["canSeek"]); exp.append(("b",))
            elif s[0] == "reopen": ops += [["close"], ["open"]]; exp += [None, ("v", n)]; pos = 0
            elif s[0] == "end": ops.append(["read", n - pos + 3]); exp.append(("read", pos, n - pos, n - pos + 3)); pos = n
        ops.append(["read", n - pos + 1]); exp.append(("read", pos, n - pos, n - pos + 1)); ops.append(["position"]); exp.append(("v", n)); ops.append(["close"]); exp.append(None)
        out = d.ok("handle", seq=ops, **a)["out"]
        for k, (o, e, g) in enumerate(zip(ops, exp, out)):
            w = "%s, %d bytes in fields at %s: %s gives %%s" % (what, n, show(bounds, 100), show(ops[:k + 1], 600))
            if g and "exc" in g: raise Violation(w % ("the error %s: %s" % (g["exc"], g["what"])), sig="error")
            if e is None or e[0] == "b": continue
            if e[0] == "v" and g["v"] != e[1]: raise Violation(w % ("%s, expected %s" % (g["v"], e[1])))
            if e[0] == "read":
                if g["v"] != e[2]: raise Violation(w % ("%s bytes, expected %d" % (g["v"], e[2])))
                if e[2] > 0 and g["md5"] != hashlib.md5(B[e[1]:e[1] + e[2]]).hexdigest(): raise Violation(w % "other bytes")
    def stepwise(self, d, a, B, bounds, seq, what, uid):
        """The same for a handle that may read less than asked: what it returns must be the next bytes, and none only at the end."""
        n = len(B); pos = 0; hist = []
        d.ok("hopen", id=uid, **a)
        def do(*o):
            hist.append(list(o)); g = d.ok("hop", id=uid, seq=[list(o)])["out"][0]; w = "%s, %d bytes in fields at %s: %s gives %%s" % (what, n, show(bounds, 100), show(hist, 600))
            if g and "exc" in g: raise Violation(w % ("the error %s: %s" % (g["exc"], g["what"])), sig="error")
            return g, w
        def read(r):
            nonlocal pos
            g, w = do("read", r); k = g["v"]
            if k < 0 or k > min(r, n - pos) or (k == 0 and r and pos < n): raise Violation(w % ("%d bytes with %d left" % (k, n - pos)))
            if k and g["md5"] != hashlib.md5(B[pos:pos + k]).hexdigest(): raise Violation(w % "other bytes")
            pos += k
        def val(e, *o):
            g, w = do(*o)
            if g["v"] != e: raise Violation(w % ("%s, expected %s" % (g["v"], e)))
        try:
            val(n, "open"); can = do("canSeek")[0]["v"]
            for s in seq:
                if s[0] == "read": read([s[2], s[2] * 7, n, n - pos, max(0, n - pos - 1), n + 5, 1, bounds[s[2] % len(bounds)], 50000][s[1]])
                elif s[0] == "seek" and can:
                    o = [bounds[abs(s[2] * 3) % len(bounds)] + s[2], n + s[2], s[2], pos + s[2], pos + s[2], n * 2 // 3 + s[2], n // 3 + s[2]][s[1]]
                    if 0 <= o <= n: val(o, "seek", o); pos = o
                elif s[0] == "skip" and can:
                    o = pos + [0, 1, s[2], s[2] * 7, n - pos][s[1]]
                    if o <= n: do("skip", o - pos); pos = o
                elif s[0] == "rewind" and can: do("rewind"); pos = 0
                elif s[0] == "position" and can: val(pos, "position")
                elif s[0] == "size" : val(n, "size")
                elif s[0] == "estimate": val(n, "estimate")
                elif s[0] == "reopen": do("close"); val(n, "open"); pos = 0
                elif s[0] == "end":
                    while pos < n: read(n - pos + 3)
                    read(10)
            while pos < n: read(n + 1)
            read(5); do("close")
        finally: d.raw("hdel", id=uid)
    def run(self, c):
        if c["grib"]: return self.overlay(c)
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; en, ev = ENVS[c["env"]]; labels = {fam.name, on, en}; nontriv = False
        with Scratch() as sc:
            w = World(sc, fam, user, env)
            try:
                for op in c["ops"]: step(w, c, op)
                w.closeall(); w.env = dict(env, **ev); vis = w.m.visible()
                if not vis: raise Skip
                d, h = w.reader(1); els = listing(d, h); byid = {elem_ident(e): e for e in els}
                if set(byid) != set(vis): raise Violation("the listing shows other fields than archived")
                for hn, (kind, srt, idx, seq) in enumerate(c["handles"]):
                    ids = [ident(key_of(fam, c["pool"][j])) for j in idx]; ids = [i for i in ids if i in vis] or [next(iter(vis))]; ids = list(dict.fromkeys(ids)) if srt else ids      # a handle sorted by file gives each field once
                    a = {"h": h, "kind": kind, "sorted": srt}; exact = None
                    kset = set()
                    if kind == "uri": ids = ids[:1]; a["uri"] = byid[ids[0]]["full"]; parts = [vis[ids[0]].data()]; exact = parts
                    elif kind == "uris": a["uris"] = [byid[i]["full"] for i in ids]; parts = [vis[i].data() for i in ids]; exact = parts if not srt else None
                    elif kind == "list": req = {k: sorted({dict(i)[k] for i in ids}) for k in dict(ids[0]) if all(k in dict(i) for i in ids)} if hn % 2 else {}; a.update(req=req, mode="dedup", **({} if req else {"all": True})); sel = [i for i in vis if selected(i, req)]
                    else:
                        a["req"] = one_request(ids); sel = matching_retrieve(w, a["req"])
                    if kind not in ("uri", "uris"): parts = [vis[i].data() for i in sel]; kset = {tuple(k for k, v in i) for i in sel}
                    if not parts: continue
                    total = sum(map(len, parts)); B = None; what = "%s handle of %d fields (%s%s)" % (kind, len(parts), en, ", sorted" if srt else ""); r = d.raw("read", **a)
                    if not r["ok"]: raise Violation("%s: cannot be read: %s %s" % (what, r["err"], r["what"]), sig="dedup-mixed" if "dedup" in en and "HyperCube" in r["what"] and len(kset) > 1 else None)
                    if r["len"] != total: raise Violation("%s: %d bytes, the fields have %d" % (what, r["len"], total), sig="dedup-mixed" if "dedup" in en and r["len"] < total and len(kset) > 1 else None)
                    B = rbytes(r)
                    if B is None:
                        if exact: B = b"".join(exact)
                        else: labels.add("long"); B = None
                    if exact and (B != b"".join(exact) or not same(r, B)): raise Violation("%s: not the bytes of the fields in the order given" % what)
                    if B is None:       # order unknown and too long to be returned: by reads of 4096
                        out = d.ok("handle", seq=[["open"]] + [["read", 4096]] * (total // 4096 + 3 * len(parts) + 3) + [["close"]], **a)["out"][1:-1]
                        B = b"".join(bytes.fromhex(o.get("hex", "")) for o in out)
                        if len(B) != total: raise Violation("%s: %d bytes in reads of 4096, expected %d" % (what, len(B), total))
                        if not same(r, B): raise Violation("%s: reads of different sizes give different bytes" % what)
                    if not exact and not segments(B, parts): raise Violation("%s: not the bytes of the fields" % what)
                    bounds = [0]
                    if exact:
                        for p in exact: bounds.append(bounds[-1] + len(p))
                    else:
                        rest = Counter(parts); p = 0
                        while p < len(B):
                            m = [x for x in rest if rest[x] and B.startswith(x, p)]
                            if not m: break
                            m = max(m, key=len); rest[m] -= 1; p += len(m); bounds.append(p)
                    bounds = bounds[:-1] or [0]
                    labels.add(kind); 
                    if len(parts) > 1 and any(s[0] in ("seek", "rewind", "skip", "read", "reopen") for s in seq): nontriv = True; labels.add("driven")
                    if "seekable" in en and kind == "retrieve": labels.add("field handle"); self.drive(d, a, B, bounds, seq, what, True, True)
                    else: self.stepwise(d, a, B, bounds, seq, what, w.name("u"))
                w.done(d, h)
            finally: w.cleanup()
        return {"labels": labels, "nontrivial": nontriv}
    def overlay(self, c):
        """Handles that rewrite messages: retrievals from a database that shows another one's."""
        en, ev = ENVS[c["env"] % 2]; labels = {"rewritten messages", en}; nontriv = False
        with Scratch() as sc:
            w = World(sc, Fam("grib", SCHEMA, []), {}, {}); cf = sc.write("cfg.yaml", w.cfg); rn = random.Random(json.dumps(c["ops"]))
            pool = [("an", rn.choice(["sfc", "pl"]), st_, par) for st_ in (0, 6) for par in (130, 131)]
            base = {"class": "od", "expver": "0001", "stream": "oper", "date": "20200101", "time": "1200"}; msgs = {}
            try:
                d = w.open("w", 0)
                for j, (ty, lt, stp, par) in enumerate(pool):
                    k = dict(base, type=ty, levtype=lt, step=str(stp), param=str(par)); k.update({"levelist": "500"} if lt == "pl" else {})
                    vals = tuple(range(j, j + rn.choice([4, 4, 17, 900])))
                    smp = rn.choice(["GRIB1", "GRIB2"]); b = message(smp, vals, **k)[0]; d.ok("archive", h=w.name("w"), key=dict(k, domain="g"), data={"hex": b.hex()}, now=w.tick()); msgs[j] = (k, b, message(smp, vals, **dict(k, expver="xxxx"))[0])
                d.ok("close", h=w.name("w"))
                rc, out = tool("fdb-overlay", "--config=" + cf, ",".join("%s=%s" % x for x in dict(base, domain="g").items()), ",".join("%s=%s" % x for x in dict(base, domain="g", expver="xxxx").items()))
                if rc: raise Violation("the overlay fails: %s" % out[-300:])
                w.env = dict(ev); d, h = w.reader(1)
                for kind, srt, idx, seq in c["handles"]:
                    js = sorted({j % len(pool) for j in idx}); new = rn.random() < .7
                    if len({msgs[j][0]["levtype"] for j in js}) > 1: js = js[:1]
                    ids = [ident(dict(msgs[j][0], domain="g", **({"expver": "xxxx"} if new else {}))) for j in js]; req = one_request(ids)
                    js = [j for j in range(len(pool)) if all(v in req.get(k, ()) for k, v in msgs[j][0].items() if k != "expver")]; parts = [msgs[j][2 if new else 1] for j in js]
                    a = {"h": h, "kind": "retrieve", "req": req}; r = d.ok("read", **a); what = "retrieve handle of %d %smessages (%s)" % (len(js), "rewritten " if new else "", en); total = sum(map(len, parts))
                    if r["len"] != total: raise Violation("%s: %d bytes, expected %d" % (what, r["len"], total))
                    out = d.ok("handle", seq=[["open"]] + [["read", 4096]] * (total // 4096 + 3 * len(parts) + 3) + [["close"]], **a)["out"][1:-1]
                    B = b"".join(bytes.fromhex(o.get("hex", "")) for o in out)
                    if not same(r, B) or not segments(B, parts): raise Violation("%s: not the bytes of the messages" % what)
                    bounds = [0]; rest = Counter(parts)
                    while bounds[-1] < len(B):
                        m = [x for x in rest if rest[x] and B.startswith(x, bounds[-1])]; m = m[0]; rest[m] -= 1; bounds.append(bounds[-1] + len(m))
                    bounds = bounds[:-1]; nontriv = nontriv or len(js) > 1
                    if ev: self.drive(d, a, B, bounds, seq, what, True, not new)
                    else: self.stepwise(d, a, B, bounds, seq, what, w.name("u"))
                w.done(d, h)
            finally: w.cleanup()
        return {"labels": labels, "nontrivial": nontriv}
if __name__ == "__main__": main(C21())
