import sys, os, random; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
from c11 import SCHEMA, tool
DATAKEYS = ["referenceValue", "binaryScaleFactor", "decimalScaleFactor", "bitsPerValue", "numberOfValues"]
POOL = [(cl, ex, d, t, ty, s, p) for cl in ("od", "rd") for ex in ("0001", "abcd") for d in ("20200101", "20200102") for t in ("0000", "1200") for ty in ("an", "fc") for s in ("0", "6") for p in ("130", "131")]
NAMES = ("class", "expver", "date", "time", "type", "step", "param")
def key(i): return dict(zip(NAMES, POOL[i]), stream="oper", domain="g", levtype="pl", levelist="500")
_memo = {}
def build(m, k):
    """(bytes, decoded values, data keys) of the message of a specification: native to the identifier, or alike for all."""
    native = k if m["native"] else {"class": "od", "expver": "0001", "date": "20200101", "time": "0000", "type": "an", "step": "0", "param": "130"}
    u = json.dumps([m, native], sort_keys=True)
    if u not in _memo:
        if len(_memo) > 5000: _memo.clear()
        s = [["setLocalDefinition", "1"]] if m["sample"] == "GRIB2" and m["local"] else []
        if m["sample"] == "GRIB1" or m["local"]: s += [[n, native[n]] for n in ("class", "expver", "type")]
        if m["sample"] == "GRIB2": s += [["typeOfLevel", "isobaricInhPa"], ["packingType", m["pack"]]]
        s += [["dataDate", native["date"]], ["dataTime", native["time"]], ["step", native["step"]], ["paramId", native["param"]], ["generatingProcessIdentifier", str(m["gpi"])], ["subCentre", str(m["sub"])]]
        v = list(m["vals"])
        if m["gap"] is not None: s.append(["bitmapPresent", "1"]); v[m["gap"] % len(v)] = 9999
        if m["bits"]: s.append(["bitsPerValue", str(m["bits"])])
        r = driver({}, "plain", slot=90, exe="vgrib").raw("grib", sample=m["sample"], set=s + [["values", v]], values=1, get=DATAKEYS)
        if not r["ok"]: raise HarnessError(str(r)[:500])
        b = bytearray.fromhex(r["hex"]); b[6] += m.get("disc", 0) if b[7] == 2 else 0
        _memo[u] = (bytes(b), [float(x) for x in r["values"]], r["got"])
    return _memo[u]
def datastart(b):
    """Where the data section of a message starts (by the GRIB regulations)."""
    if b[7] == 2:
        o = 16
        while b[o + 4] != 7: o += int.from_bytes(b[o:o + 4], "big")
        return o
    f = b[15]; o = 8 + int.from_bytes(b[8:11], "big")
    for bit in (0x80, 0x40):
        if f & bit: o += int.from_bytes(b[o:o + 3], "big")
    return o
MSG = st.fixed_dictionaries({"sample": st.sampled_from(["GRIB2", "GRIB2", "GRIB1"]), "local": st.sampled_from([True, True, False]), "pack": st.sampled_from(["grid_simple"] * 3 + ["grid_ccsds"]), "gap": st.sampled_from([None, None, None, 1]), "bits": st.sampled_from([8, 8, 16]),
    "gpi": st.sampled_from([7]), "sub": st.sampled_from([0]), "vals": st.sampled_from([[0, 255, 17, 100], [0, 255, 5, 6, 7], [0, 255] + [40] * 60])})
@st.composite
def cases(draw):
    base = draw(MSG); native = draw(st.booleans()); seed = draw(st.integers(0, 10 ** 9)); rng = random.Random(seed)
    ids = draw(st.lists(st.integers(0, len(POOL) - 1), min_size=1, max_size=5, unique=True)); b = rng.choice(ids)
    ids = sorted({i if rng.random() < .3 else POOL.index(tuple(x if rng.random() < .6 else y for x, y in zip(POOL[b], POOL[i]))) for i in ids})
    kind = rng.choice(["same"] + ["plain"] * 5 + ["request"] * 3 + ["two"] * 4)
    pick = rng.choice
    muts = [[pick(["drop1", "drop2", "extra1", "extra2", "val", "val", "val", "val", "val", "far", "gpi", "sub", "bits", "gap", "count", "local", "sample", "pack", "scale", "disc"]), rng.randrange(100), pick([1, 1, 2, 5, 50]), rng.randrange(60)] for _ in range(pick([0, 1, 1, 1, 1, 2]))]
    opt = {"scope": pick([None, "mars", "header-only", "header-only", "header-only", "all", "all", "all", "all", "all"]), "method": pick([None, "grib-keys", "bit-identical", "hash-keys"]), "tol": pick([None, "1", "2.5", "5", "60", "0"]),
        "ignore": pick([None, None, ["generatingProcessIdentifier"], ["subCentre"], ["bitsPerValue", "referenceValue", "binaryScaleFactor"], ["generatingProcessIdentifier", "subCentre"]]), "select": pick([None] * 6 + [["generatingProcessIdentifier"], ["subCentre", "values"], ["values"], ["bitsPerValue"]]),
        "mars": pick([None] * 8 + [{"step": "6"}, {"type": "an"}, {"step": "0", "param": "131"}, {"class": "od", "type": "fc"}]), "verbose": pick([False, False, True])}
    return {"kind": kind, "base": base, "native": native, "ids": ids, "muts": muts, "opt": opt, "seed": seed, "over": draw(st.booleans())}
class C27(Check):
    prop = "C27"; quick = 400; thorough = 12000; targets = ("vdriver", "vgrib", "fdb-compare")
    rule = ("cases: an archive of generated GRIB messages (edition 1 and 2, with and without local section and bitmap, simple and CCSDS packing; some overwritten), and a second one (or a second part of the same, with class, experiment, date or time replaced) with up to two changes - fields missing or added, values, header keys, packing, number of values, edition - archived in another order, compared by fdb-compare in both directions under generated scope, method, tolerance, keys ignored and selected; "
            "non-trivial: a change, with both archives holding fields")
    def strategy(self): return cases()
    def run(self, c):
        o = c["opt"]; rng = random.Random(c["seed"] + 1); labels = {c["kind"], o["scope"] or "default scope", o["method"] or "default method"}
        A = {i: dict(c["base"], native=c["native"], vals=[v + j if 1 < n else v for n, v in enumerate(c["base"]["vals"])]) for j, i in enumerate(c["ids"])}; flip = {}
        if c["kind"] == "two":      # the second part has other values of some database keywords
            b = POOL[c["ids"][0]]; ns = rng.sample(NAMES[:4], rng.choice([1, 1, 2]))
            A = {i: m for i, m in A.items() if all(POOL[i][NAMES.index(n)] == b[NAMES.index(n)] for n in ns)}
            for n in ns: flip[n] = (b[NAMES.index(n)], next(x for x in ({"class": ("od", "rd"), "expver": ("0001", "abcd"), "date": ("20200101", "20200102"), "time": ("0000", "1200")}[n]) if x != b[NAMES.index(n)]))
        move = lambda i: POOL.index(tuple(flip[n][1] if n in flip else v for n, v in zip(NAMES, POOL[i])))
        B = {i: dict(m) for i, m in A.items()}; change = False
        for m, a, d, e in c["muts"]:
            i = sorted(A)[a % len(A)]; labels.add(m)
            if m == "drop1" and len(A) > 1 and i in A: del A[i]
            elif m == "drop2" and len(B) > 1 and i in B: del B[i]
            elif m in ("extra1", "extra2"):
                f = [j for j in range(len(POOL)) if j not in A and j not in B and all(POOL[j][NAMES.index(n)] == flip[n][0] for n in flip)]
                if f: (A if m == "extra1" else B)[f[(a * 7 + e) % len(f)]] = dict(c["base"], native=c["native"])
            elif i in B:
                t = B[i]; v = list(t["vals"])
                if m == "val": j = 2 + e % (len(v) - 2); v[j] = v[j] + d if v[j] + d < 256 else v[j] - d; t["vals"] = v
                elif m == "far": v[1] += 300; t["vals"] = v
                elif m == "scale": v[0] -= 1; t["vals"] = v
                elif m == "gpi": t["gpi"] += d
                elif m == "sub": t["sub"] += d
                elif m == "disc": t["disc"] = d
                elif m == "bits": t["bits"] = 24 - t["bits"]
                elif m == "gap": t["gap"] = None if t["gap"] is not None and e % 2 else 2
                elif m == "count": t["vals"] = v + [9]
                elif m == "local": t["local"] = not t["local"]
                elif m == "pack": t["pack"] = "grid_ccsds" if t["pack"] == "grid_simple" else "grid_simple"
                elif m == "sample": t["sample"] = "GRIB1" if t["sample"] == "GRIB2" else "GRIB2"
        fam = Fam("grib", SCHEMA, [])
        with Scratch() as sc:
            w = World(sc, fam)
            cfgs = [config(w.schema, [sc.mkdir("r1")]), config(w.schema, [sc.mkdir("r2")])] if c["kind"] != "two" or rng.random() < .5 else [w.cfg, w.cfg]
            files = [sc.write("c%d.yaml" % n, x) for n, x in enumerate(cfgs)]; d = w.drv(0); data = [{}, {}]
            try:
                for n, (cf, S) in enumerate(zip(cfgs, (A, B))):
                    put = []
                    for i, m in S.items(): k = key(move(i) if n else i); data[n][i] = build(m, k); put.append((k, data[n][i][0]))
                    if c["kind"] == "same" and n: break
                    rng.shuffle(put); h = "%s%d" % (os.path.basename(sc.d), n)
                    for first in ([True, False] if c["over"] else [False]):
                        d.ok("open", h=h, config=cf, user="{}")
                        for k, b in put:
                            if first and rng.random() < .5: continue
                            x = build(dict(c["base"], native=c["native"], gpi=99), k)[0] if first else b
                            d.ok("archive", h=h, key=k, data={"hex": x.hex()})
                            if rng.random() < .3: d.ok("flush", h=h)
                        d.ok("flush", h=h); d.ok("close", h=h)
                if c["kind"] == "same": B = A; data[1] = data[0]
                # the requests
                if c["kind"] == "request":
                    b = POOL[c["ids"][0]]; ns = rng.sample(NAMES, rng.choice([1, 2])); rq = {n: b[NAMES.index(n)] for n in ns}; reqs = [rq, None if rng.random() < .5 else rq]; fs = [lambda i: all(key(i)[n] == v for n, v in rq.items())] * 2
                elif c["kind"] == "two": reqs = [{n: v[j] for n, v in flip.items()} for j in (0, 1)]; fs = [lambda i: True] * 2
                else: reqs = [None, None]; fs = [lambda i: True] * 2
                drop = lambda k: o["mars"] and any(k[n] == v for n, v in o["mars"].items())
                if cfgs[0] == cfgs[1] and c["kind"] != "same": pass
                s1 = {i for i in A if fs[0](i) and not drop(key(i))}; s2 = {i for i in B if fs[1](i) and not drop(key(move(i) if c["kind"] == "two" else i))}
                verdict, why = self.verdict(c, o, s1, s2, data, flip); change = verdict is not True
                for direction in (0, 1):
                    a = ["--config1=" + files[direction]]
                    if c["kind"] != "same": a.append("--config2=" + files[1 - direction])
                    for n, r in enumerate(reqs if not direction or not reqs[1] else reqs[::-1]):
                        if r: a.append("--request%d=%s" % (n + 1, ",".join("%s=%s" % x for x in r.items())))
                    if o["scope"]: a.append("--scope=" + o["scope"])
                    if o["method"]: a.append("--grib-comparison-type=" + o["method"])
                    if o["tol"]: a.append("--fp-tolerance=" + o["tol"])
                    if o["ignore"]: a.append("--grib-keys-ignore=" + ",".join(o["ignore"]))
                    if o["select"]: a.append("--grib-keys-select=" + ",".join(o["select"]))
                    if o["mars"]: a.append("--mars-keys-ignore=" + ",".join("%s=%s" % x for x in o["mars"].items()))
                    if o["verbose"]: a.append("--verbose")
                    rc, out = tool("fdb-compare", *a)
                    if rc < 0: raise Violation("fdb-compare %s dies with signal %d: %s" % (a, -rc, out[-600:]))
                    if verdict is not None and (rc == 0) != verdict: raise Violation("fdb-compare %s exits %d; expected %s (%s): %s" % (a, rc, "success" if verdict else "failure", why, out[-1500:]))
                    if verdict is None:
                        if direction and (rc == 0) != last: raise Violation("fdb-compare %s exits %d, and the other way round the opposite (%s): %s" % (a, rc, why, out[-1500:]))
                        last = rc == 0
            finally: w.cleanup()
        labels.add({True: "equal", False: "different", None: "not judged"}[verdict]); return {"labels": labels, "nontrivial": bool(c["muts"]) and bool(s1 and s2)}
    def verdict(self, c, o, s1, s2, data, flip):
        if s1 != s2: return False, "the selected identifiers differ"
        if (o["scope"] or "mars") == "mars": return True, "the same identifiers"
        res = True, "all fields equal"; tol = 10 * 2.0 ** -52 if o["tol"] is None else float(o["tol"])
        for i in sorted(s1):
            v, why = self.pair(c, o, data[0][i], data[1][i], tol, flip)
            if v is False: return False, "%s: %s" % (key(i), why)
            if v is None: res = None, why
        return res
    def pair(self, c, o, a, b, tol, flip):
        (x, xv, xk), (y, yv, yk) = a, b; far = len(xv) != len(yv) or max(abs(p - q) for p, q in zip(xv, yv)) > tol
        method = o["method"] or "grib-keys"
        if method != "grib-keys":
            if x == y: return True, ""
            dx, dy = datastart(x), datastart(y)
            if o["scope"] == "all" and len(x) == len(y) and x[:dx] == y[:dy]: return not far, "data sections only"
            return False, "bytes"
        if o["select"]:
            hd = any(self.field(x, k) != self.field(y, k) for k in o["select"] if k in ("generatingProcessIdentifier", "subCentre")) or "bitsPerValue" in o["select"] and xk.get("bitsPerValue") != yk.get("bitsPerValue")
            if hd: return False, "a selected key"
            if "values" not in o["select"]: return True, ""
            if o["scope"] == "header-only": return (True, "") if xv == yv else (None, "values selected under header-only")
            return not far, "selected values"
        ign = set(o["ignore"] or []) | (set(DATAKEYS) if o["scope"] == "header-only" else set())
        hx, hy = self.head(x), self.head(y)
        for k in sorted(hx, key=lambda k: k == "shape"):
            if k in ign: continue
            if k == "shape" and o["scope"] == "header-only" and hx[k] != hy[k]: return None, "a bitmap"      # counts as data, but for a flag of the header of GRIB1
            if hx[k] != hy[k]: return False, "header %s" % k
        dk = [k for k in DATAKEYS if xk.get(k) != yk.get(k) and k not in ign]
        if dk: return False, "data keys %s" % dk
        if o["scope"] == "header-only": return (True, "headers equal") if len(xv) == len(yv) else (None, "number of points")
        if far: return False, "values"
        return (True, "") if len(x) == len(y) else (None, "lengths of messages differ")
    def field(self, b, k): return self.head(b)[k]
    def head(self, b):
        """Header facts read from the octets."""
        if b[7] == 1: return {"edition": 1, "generatingProcessIdentifier": b[13], "subCentre": b[33], "shape": b[15], "pack": 0}
        r = {"edition": 2, "shape": 0, "discipline": b[6]}; o = 16; r["has2"] = False
        while b[o:o + 4] != b"7777":
            n = b[o + 4]; l = int.from_bytes(b[o:o + 4], "big")
            if n == 1: r["subCentre"] = int.from_bytes(b[o + 7:o + 9], "big")
            if n == 2: r["has2"] = True
            if n == 4: r["generatingProcessIdentifier"] = b[o + 13]
            if n == 5: r["pack"] = b[o + 9:o + 11]
            if n == 6: r["shape"] = b[o + 5]
            o += l
        return r
if __name__ == "__main__": main(C27())
