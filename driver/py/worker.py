"""The Python interfaces behind the line protocol of the drivers: one JSON object in, one out. Run by the interpreter of the test environment."""
import sys, os, json
out = os.fdopen(os.dup(1), "w"); os.dup2(2, 1)
OPS = {}
def op(f): OPS[f.__name__[3:]] = f; return f
stores = {}
@op
def op_zbuild(c):
    import z3fdb, zarr
    from z3fdb import SimpleStoreBuilder, AxisDefinition, Chunking, ExtractorType
    from pathlib import Path
    stores.pop(c["h"], None)
    b = SimpleStoreBuilder(Path(c["config"]))
    for p in c["parts"]:
        b.add_part(p["req"], [AxisDefinition(a["keys"], {"whole": Chunking.WHOLE_AXIS, "single": Chunking.SINGLE_VALUE}.get(a["chunk"]) or Chunking.FixedSizeChunk(a["chunk"])) for a in p["axes"]], ExtractorType.GRIB)
    if "extend" in c: b.extend_on_axis(c["extend"])
    if "fill" in c: b.fill_missing_value(float(c["fill"]))
    s = b.build(); z = zarr.open_array(s, mode="r", zarr_format=3)
    stores[c["h"]] = (s, z)
    return {"shape": list(z.shape), "chunk": list(z.chunks), "dtype": str(z.dtype), "paths": sorted(s)}
@op
def op_zread(c):
    s, z = stores[c["h"]]
    a = z[tuple(slice(*x) if isinstance(x, list) else x for x in c["sel"])]
    import numpy as np
    a = np.ascontiguousarray(a, dtype="<f4")
    return {"shape": list(a.shape), "hex": a.tobytes().hex()}
@op
def op_zdrop(c): stores.pop(c["h"], None); return {}
# --- pyfdb
fdbs = {}; kept = {}
def value(v):
    """A value of a selection as the case describes it: [kind, values]."""
    k, x = v
    if k == "str": return x[0]
    if k == "int": return int(x[0])
    if k == "float": return float(x[0])
    if k == "slash": return "/".join(x)
    if k == "ints": return [int(y) for y in x]
    if k == "mixed": return [int(y) if n % 2 and str(int(y)) == y else y for n, y in enumerate(x)]
    if k == "tuple": return tuple(x)
    if k == "set": return set(x)
    if k == "frozenset": return frozenset(x)
    if k == "keys": return dict.fromkeys(x).keys()
    if k == "raw": return x
    return list(x)
def selection(s, m="dict"):
    d = {k: value(v) for k, v in s}
    if m == "proxy":
        import types
        return types.MappingProxyType(d)
    if m == "ordered":
        import collections
        return collections.OrderedDict(d)
    return d
def elem(e, read=False):
    r = {"keys": e.keys(), "combined": e.combined_key(), "repr": repr(e), "loc": e.has_location(), "off": e.offset(), "len": e.length(), "uri": None if e.uri is None else str(e.uri), "path": None if e.uri is None else e.uri.path()}
    if read:
        h = e.data_handle
        r["hex"] = None if h is None else h.readall().hex()
    return r
def conf(x, kind):
    import yaml
    from pathlib import Path
    if x is None: return None
    if kind == "dict": return x
    if kind == "yaml": return yaml.safe_dump(x)
    if kind == "json": return json.dumps(x)
    p = Path(kind); p.write_text(yaml.safe_dump(x)); return p
@op
def op_popen(c):
    import pyfdb
    fdbs[c["h"]] = pyfdb.FDB(*[conf(c.get(k), c[k + "kind"]) for k in ("config", "user")][:2 if c.get("user") is not None or c.get("both") else 1] if c.get("config") is not None or c.get("user") is not None else [])
    return {}
@op
def op_pclose(c): fdbs.pop(c["h"], None); return {}
@op
def op_pconfig(c): s, u = fdbs[c["h"]].config(); return {"system": s, "user": u}
@op
def op_parchive(c):
    d = bytes.fromhex(c["hex"])
    if c.get("as") == "str": d = d.decode()
    k = c.get("key"); f = fdbs[c["h"]]
    if k is None: f.archive(d)
    else: f.archive(d, dict(map(tuple, k)) if c.get("form") == "dict" else [tuple(x) for x in k])
    return {}
@op
def op_pflush(c): fdbs[c["h"]].flush(); return {}
@op
def op_pdirty(c): return {"v": fdbs[c["h"]].dirty()}
@op
def op_pwith(c):
    """Archiving inside the context manager, which flushes."""
    with fdbs[c["h"]] as f:
        for k, d in c["items"]: f.archive(bytes.fromhex(d), [tuple(x) for x in k])
    return {}
@op
def op_plist(c):
    f = fdbs[c["h"]]; g = f.list(selection(c["sel"], c.get("map")), c["masked"], c["level"])
    if c.get("stop") is not None:      # an abandoned listing
        import itertools
        r = [elem(e) for e in itertools.islice(g, c["stop"])]; del g; return {"elems": r}
    if c.get("drop"): del f; fdbs.pop(c["h"])
    es = list(g); del g
    return {"elems": [elem(e, c.get("read")) for e in es]}
@op
def op_pinspect(c): return {"elems": [elem(e, c.get("read")) for e in fdbs[c["h"]].inspect(selection(c["sel"], c.get("map")))]}
@op
def op_paxes(c):
    a = fdbs[c["h"]].axes(selection(c["sel"], c.get("map")), c["level"]); d = {k: v for k, v in a.items()}
    views = [dict(a), {k: a[k] for k in a}, {k: a.get(k) for k in a.keys()}, dict(zip(a.keys(), a.values())), {**a}]
    return {"axes": {k: list(v) for k, v in d.items()}, "views": [{k: None if v is None else list(v) for k, v in x.items()} for x in views], "len": len(a), "eq": a == d, "in": [k in a for k in d] + ["nosuchkey" not in a, a.get("nosuchkey") is None, a.get("nosuchkey", 7) == 7]}
@op
def op_pstats(c): return {"elems": [{"ireport": e.index_statistics(), "report": e.db_statistics(), "repr": repr(e)} for e in fdbs[c["h"]].stats(selection(c["sel"], c.get("map")))]}
def cel(e): return {"key": e.key(), "loc": e.location().path(), "enabled": [str(x).lower() for x in e.controlIdentifiers()], "repr": repr(e)}
@op
def op_pstatus(c): return {"elems": [cel(e) for e in fdbs[c["h"]].status(selection(c["sel"], c.get("map")))]}
@op
def op_pcontrol(c):
    import pyfdb
    from pyfdb.pyfdb_type import ControlAction, ControlIdentifier
    ids = [ControlIdentifier[x.upper()] for x in c["ids"]]
    if c.get("flag"):
        x = ControlIdentifier.NONE
        for i in ids: x |= i
        ids = x
    return {"elems": [cel(e) for e in fdbs[c["h"]].control(selection(c["sel"], c.get("map")), ControlAction[c["action"].upper()], ids)]}
@op
def op_penabled(c):
    from pyfdb.pyfdb_type import ControlIdentifier
    return {"v": [x.name.lower() for x in ControlIdentifier if x.name in ("LIST", "RETRIEVE", "ARCHIVE", "WIPE") and fdbs[c["h"]].enabled(x)]}
@op
def op_pwipe(c): return {"elems": [{"type": int(e.type().value), "msg": e.msg(), "uris": [u.path() for u in e.uris()]} for e in fdbs[c["h"]].wipe(selection(c["sel"], c.get("map")), c["doit"], c.get("porcelain", False), c.get("force", False))]}
@op
def op_ppurge(c): return {"elems": [repr(e) for e in fdbs[c["h"]].purge(selection(c["sel"], c.get("map")), c["doit"], c.get("porcelain", False))]}
def buffer(kind, n):
    """(what is passed to readinto, the bytes it lives in, slice of these that it covers or None)"""
    import array
    if kind == "bytes": b = bytes([0xAA]) * n + b""; return b, b, None
    if kind == "romv": b = bytearray(b"\xAA" * n); return memoryview(b).toreadonly(), b, None
    b = bytearray(b"\xAA" * (n + 16) * 2)
    if kind == "mv": return memoryview(b)[8:8 + n], b, (8, n)
    if kind == "rev": return memoryview(b)[8 + n - 1:7:-1], b, None if n > 1 else (8, n)
    if kind == "step": return memoryview(b)[8:8 + 2 * n:2], b, None if n > 1 else (8, n)
    if kind == "short": return memoryview(b)[8:8 + n // 2 * 2].cast("H"), b, (8, n // 2 * 2)
    if kind == "2d": return (memoryview(b)[8:8 + n // 4 * 4].cast("B", (n // 4, 4)) if n >= 4 else memoryview(b)[8:8 + n]), b, (8, n // 4 * 4 if n >= 4 else n)
    if kind == "numpy":
        import numpy
        return numpy.frombuffer(b, dtype="u1")[8:8 + n], b, (8, n)
    b = bytearray(b"\xAA" * n); return b, b, (0, n)
@op
def op_pretrieve(c):
    import io, shutil, gc
    f = fdbs[c["h"]]
    ref = None
    if c.get("elem") is None:
        sel = selection(c["sel"], c.get("map"))
        if c.get("ref"): ref = f.retrieve(sel).readall(10000).hex()
        h = f.retrieve(sel)
    else:
        es = list(f.list(selection(c["sel"], c.get("map")))); h = es[c["elem"] % len(es)].data_handle; del es
    if c.get("drop"): fdbs.pop(c["h"]); del f; gc.collect()
    out = []
    for s in c["prog"]:
        r = {}
        try:
            w = s[0]
            if w == "open": h.open()
            elif w == "close": h.close()
            elif w == "size": r["n"] = h.size()
            elif w == "read": r["hex"] = h.read(*s[1:]).hex()
            elif w == "readkw": r["hex"] = h.read(len=s[1]).hex()
            elif w == "readall": r["hex"] = h.readall(*s[1:]).hex()
            elif w == "readinto":
                b, raw, cov = buffer(s[1], s[2]); before = bytes(raw)
                try: r["n"] = h.readinto(b)
                finally:
                    r["changed"] = bytes(raw) != before; r["cov"] = cov
                if cov is not None:
                    lo, n = cov; r["hex"] = bytes(raw[lo:lo + r["n"]]).hex(); r["clean"] = bytes(raw[:lo]) == before[:lo] and bytes(raw[lo + r["n"]:]) == before[lo + r["n"]:]
            elif w == "copy": o = io.BytesIO(); shutil.copyfileobj(h, o, *s[1:]); r["hex"] = o.getvalue().hex()
            elif w == "with":
                with h as g: r["hex"] = g.read(s[1]).hex()
        except BaseException as e: r["exc"] = type(e).__name__; r["what"] = str(e)[:300]
        out.append(r)
    return {"out": out, "ref": ref}
@op
def op_pconcur(c):
    """Several instances used in turn from several threads."""
    import threading
    res = [None] * len(c["jobs"])
    def run(i, j):
        try: res[i] = dict(OPS[j["op"]](j), ok=True)
        except BaseException as e: res[i] = {"ok": False, "err": type(e).__name__, "what": str(e)[:500]}
    ts = [threading.Thread(target=run, args=(i, j)) for i, j in enumerate(c["jobs"])]
    for t in ts: t.start()
    for t in ts: t.join()
    return {"out": res}
for m in sys.argv[1:]: exec(compile(open(m).read(), m, "exec"))
for line in sys.stdin:
    c = json.loads(line)
    if c["op"] == "_exit": break
    try: r = dict(OPS[c["op"]](c), ok=True)
    except BaseException as e: r = {"ok": False, "err": type(e).__name__, "what": str(e)[:2000]}
    out.write(json.dumps(r) + "\n"); out.flush()
os._exit(0)
