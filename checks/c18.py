import sys, os, random, shutil, struct; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
import c15, c17
HDR = 112
NUMS = [0, 1, 8, 111, 112, 113, 128, 1023, 1025, 1 << 20, (1 << 20) + 111, (1 << 20) + 112, (1 << 20) + 113, 1 << 31, (1 << 32) - 1, 1 << 40, 1 << 63, (1 << 64) - 1]
INTS = [0, 1, 2, 127, 255, 65535, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]
def records(b):
    """Offsets and lengths of the records of a table of contents."""
    r = []; o = 0
    while o + HDR <= len(b):
        n = struct.unpack_from("<Q", b, o + 104)[0]
        if n < HDR or o + n > len(b): break
        r.append((o, n)); o += n
    return r
def damage(files, name, rng, kind):
    """A damaged version of one file (the others may donate records); returns (bytes, what was done)."""
    b = bytearray(files[name]); rs = records(b); n = len(b)
    if not n: return bytes(b), "nothing"
    o, l = rng.choice(rs) if rs else (0, n); used = HDR + 160 if l > HDR + 160 else l
    if kind == "truncate": p = rng.choice([rng.randrange(n), o, o + rng.randrange(l), max(0, n - rng.randrange(1, 200)), o + rng.choice([1, 4, 8, 104, 111, 112, 113])]); del b[p:]; return bytes(b), "truncated at %d of %d" % (p, n)
    if kind == "byte":
        k = rng.choice([1, 1, 2, 8]); w = []
        for _ in range(k): p = o + rng.randrange(used); v = rng.choice([0, 1, 255, rng.randrange(256), b[p] ^ (1 << rng.randrange(8))]); b[p] = v; w.append((p, v))
        return bytes(b), "bytes %s" % w
    if kind == "header":
        f, w = rng.choice([(0, 1), (4, 4), (8, 4), (16, 8), (24, 8), (40, 64), (104, 8), (104, 8), (104, 8)]); v = rng.choice(NUMS)
        if f == 0: v = rng.choice(b"tics\0x\xff")
        b[o + f:o + f + w] = (v & ((1 << 8 * w) - 1)).to_bytes(w, "little") if w < 64 else b"h" * 64; return bytes(b), "header field at %d+%d set to %s" % (o, f, v)
    if kind == "int": p = o + HDR + rng.randrange(max(1, min(used, l) - HDR)); v = rng.choice(INTS); b[p:p + 4] = v.to_bytes(4, "big"); return bytes(b[:n]), "int at %d set to %d" % (p, v)
    if kind == "records" and rs:
        how = rng.choice(["delete", "duplicate", "swap", "import", "append", "shift"]); src = files[rng.choice(sorted(files))]; other = records(src)
        o2, l2 = rng.choice(rs)
        if how == "delete": del b[o:o + l]
        elif how == "duplicate": b[o2:o2] = b[o:o + l]
        elif how == "swap" and o != o2: (o, l), (o2, l2) = sorted([(o, l), (o2, l2)]); x, y = b[o:o + l], b[o2:o2 + l2]; b[o2:o2 + l2] = x; b[o:o + l] = y
        elif how == "import" and other: p, q = rng.choice(other); b[o2:o2] = src[p:p + q]
        elif how == "append": b += bytes(rng.randrange(256) for _ in range(rng.choice([1, 50, 112, 300, 1024])))
        elif how == "shift": b[o:o] = bytes(rng.choice([1, 8, 112]))
        return bytes(b), "records: %s" % how
    if kind == "zero": p = rng.randrange(n); q = min(n, p + rng.choice([1, 100, 1024, 5000])); b[p:q] = bytes(q - p); return bytes(b), "zero %d-%d" % (p, q)
    if kind == "noise": return bytes(rng.randrange(256) for _ in range(rng.choice([1, 112, 1024, 3000]))), "noise"
    return bytes(b), "nothing"
KINDSD = ["truncate"] * 5 + ["byte"] * 3 + ["header"] * 4 + ["int"] * 3 + ["records"] * 4 + ["zero", "noise"]
@st.composite
def tocs(draw):
    c = draw(histories(maxops=14, mop=("a", "a", "a", "f", "f", "c"))); c["kind"] = "toc"; c["seed"] = draw(st.integers(0, 10 ** 9)); c["n"] = draw(st.integers(4, 12)); return c
@st.composite
def objects(draw):
    k = draw(st.sampled_from(["schema"] * 3 + sorted(set(c17.KINDS) - {"keyparse", "fulluri", "internal", "rconf"}))); v = c15.text(draw(c15.schemas())) if k == "schema" else draw(c17.KINDS[k])
    return {"kind": "object", "obj": k, "v": v, "version": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10 ** 9))}
class C18(Check):
    prop = "C18"; quick = 700; thorough = 60000; targets = ("vdriver", "vcodec"); kinds = ("plain", "san")
    rule = ("cases: (1) histories of flushed archives, after which the tables of contents (sub-tables too) are damaged - truncated anywhere, bytes, header fields and encoded integers changed, records deleted, repeated, exchanged or imported from another table, ranges zeroed, noise - and then listed, retrieved, "
            "dumped, counted, and written to by processes with address and undefined-behaviour sanitizers; (2) encoded objects of thirteen kinds (schemas among them), each damaged in 40 ways and decoded in a buffer of exactly its size; non-trivial: damaged tables that still gave an answer and damaged ones that were refused, or at least one refused object")
    def strategy(self): return st.one_of(tocs(), tocs(), objects())
    def run(self, c): return self.object(c) if c["kind"] == "object" else self.toc(c)
    def object(self, c):
        rng = random.Random(c["seed"]); progs = c.get("progs") or [[[rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 5, 6]), rng.randrange(1 << 20), rng.choice([rng.randrange(256), rng.choice(INTS)])] for _ in range(rng.choice([1, 1, 1, 2, 4]))] for _ in range(40)]
        try: r = driver(exe="vcodec", kind="san", timeout=60).raw("codec", kind=c["obj"], v=c["v"], version=c["version"], mutate=progs)
        except DriverDied as e: self.fail(e, "decoding a damaged %s (damages %s)" % (c["obj"], show(progs, 200)))
        if not r.get("ok"):
            if r.get("err") == "driver" or str(r.get("what")).startswith("driver:"): raise HarnessError(str(r)[:1000])
            raise Skip
        return {"labels": ["object " + c["obj"]], "nontrivial": r["bad"] > 0}
    def fail(self, e, what):
        t = "\n".join(x[:200] for x in str(e).split("\n") if not re.search(r"/usr/include/c\+\+|libc_start|/driver/core.cc|_start ", x)); i = max(t.rfind("runtime error"), t.rfind("ERROR: AddressSanitizer"))
        raise Violation("%s: %s" % (what, t[max(0, i - 200):i + 2000] if i >= 0 else t[:300] + t[-1500:]))
    def toc(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; labels = {fam.name, on}; ok = err = 0; rng = random.Random(c["seed"])
        with Scratch() as sc:
            w = World(sc, fam, user, env); snaps = []
            try:
                def snap():
                    s = {}
                    for r in w.roots:
                        for dp, _, fs in os.walk(r):
                            for f in fs:
                                if f.startswith("toc"): s[os.path.join(dp, f)] = os.path.getsize(os.path.join(dp, f))
                    snaps.append((s, {i: len(h) for i, h in w.m.hist.items() if h}))
                hist = {}
                def note():
                    for i, h in w.m.hist.items():
                        for j, r in enumerate(h): hist.setdefault(i, {})[r.data()] = j      # short fields may repeat: the last place counts
                for op in c["ops"]:
                    step(w, c, op); note()
                    if op[0] in "fc": snap()
                w.closeall(); note(); snap(); tocs = sorted(snaps[-1][0])
                if not hist: raise Skip
                d = driver(env, "san", timeout=60)
                files = {p: open(p, "rb").read() for p in tocs}; n = [0]; dbs = sorted({os.path.dirname(p) for p in tocs})
                def q(what, op, **kw):
                    n[0] += 1; h = "%sd%d" % (os.path.basename(sc.d), n[0])
                    try:
                        r = d.raw("open", h=h, config=w.cfg, user=w.user)
                        if r["ok"]: r = d.raw(op, h=h, **kw)
                        if not r["ok"] and (r.get("err") == "driver" or str(r.get("what", "")).startswith("driver:")): raise HarnessError("%s %s" % (op, r))
                        if op != "archive" or r["ok"] or True: d.raw("close", h=h)
                        return r
                    except DriverDied as e: self.fail(e, "%s (%s) on %s" % (op, show(kw, 200), what))
                for j in range(c["n"]):
                    kind = rng.choice(KINDSD); p = rng.choice(tocs); b, how = damage(files, p, rng, kind)
                    if c.get("only") is not None and j not in c["only"]: rng.random(); continue
                    what = "%s with %s (damage %d)" % (os.path.basename(p), how, j); labels.add(kind)
                    with open(p, "wb") as f: f.write(b)
                    rl = q(what, "list", req={}, all=True, mode="full", read=True); rd = q(what, "list", req={}, all=True, mode="dedup", read=True)
                    ok += rl["ok"]; err += not rl["ok"]
                    if kind == "truncate": self.truncated(w, what, p, len(b), hist, snaps, rl, rd, dbs)
                    i = rng.choice(sorted(hist)); r = q(what, "retrieve", req={k: [v] for k, v in i})
                    if kind == "truncate" and r["ok"] and r["len"] and not any(set(j_) < set(i) for j_ in hist):     # a request also selects fields without some of its keywords
                        if r["md5"] not in {hashlib.md5(x).hexdigest() for x in hist[i]}: raise Violation("%s: retrieving %s gives bytes never archived under it" % (what, i))
                    lv = w.m.levels[i][0]; req = {k: [v] for k, v in lv.items()}
                    for op in rng.sample(["stats", "dump", "axes", "status", "inspect", "purge", "wipe", "archive"], 3):
                        if op == "archive": q(what, op, key=key_of(fam, w.m.kx[i]), data={"id": 77, "len": 9})
                        elif op == "inspect": q(what, op, req={k: [v] for k, v in i})
                        elif op == "axes": q(what, op, req={}, all=True, level=rng.randint(1, 3))
                        elif op in ("purge", "wipe"): q(what, op, req=req, doit=False, porcelain=False, force=False)
                        elif op == "dump" and any(abs(struct.unpack_from("<q", b, o_ + 16)[0]) > 1 << 50 for o_, _ in records(b)): pass      # eckit cannot print such times
                        elif op == "dump": q(what, op, req={}, all=True, simple=bool(rng.randrange(2)))
                        else: q(what, op, req={}, all=True)
                    for p_, x in files.items():
                        with open(p_, "wb") as f: f.write(x)
                r = q("the restored tables", "list", req={}, all=True, mode="dedup", read=True)
                if not r["ok"] or {elem_ident(e) for e in r["elems"]} != set(hist): raise Violation("after the tables were restored the listing is %s" % show(r, 600))
            finally: w.cleanup()
        return {"labels": labels, "nontrivial": ok > 0 and err > 0}
    def truncated(self, w, what, p, n, hist, snaps, rl, rd, dbs):
        db = os.path.dirname(p); name = os.path.basename(p); bound = [s for s in snaps if s[0].get(p, 0) == n]; must = {}
        if name == "toc":     # the last state recorded before the table reached this length
            for s, vis in snaps:
                if s.get(p, 0) <= n: must = vis
            must = {i: v for i, v in must.items() if any(os.path.basename(db) == dbname(w.fam, w.m.kx[i]) for _ in [0])}
        if bound and name == "toc" and not w.subtoc and not (rl["ok"] and rd["ok"]): raise Violation("%s: the table has the length it had in an earlier state, and listing fails: %s" % (what, show(rl if rd["ok"] else rd)))
        for r in (rl, rd):
            if not r["ok"]: continue
            for e in r["elems"]:
                i = elem_ident(e); b = rbytes(e["data"]) if "data" in e else None
                if i not in hist: raise Violation("%s: %s is listed and was never archived" % (what, i))
                if "data" in e and e["data"].get("md5") not in {hashlib.md5(x).hexdigest() for x in hist[i]}: raise Violation("%s: %s is listed with bytes never archived under it" % (what, i))
        if rd["ok"] and not w.subtoc:
            have = {elem_ident(e): e for e in rd["elems"]}
            for i, v in must.items():
                if i not in have: raise Violation("%s: %s, flushed before the table reached this length, is not listed" % (what, i))
                k = hist[i].get(next((x for x in hist[i] if hashlib.md5(x).hexdigest() == have[i]["data"].get("md5")), None))
                if k is None or k < v - 1: raise Violation("%s: %s is listed with an older content than when the table had this length" % (what, i))
if __name__ == "__main__": main(C18())
