import sys, os, random, shutil, re, hashlib; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
from c28 import TYPES, VALS, MULTI, spell, VENV
import grib, vf
WORKER = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../driver/py/worker.py")
def python(env=None, slot=93):
    s = os.path.join(BUILD, "plain")
    return driver(dict({"PYTHONPATH": s + "/z3fdb-python-package-staging:" + s + "/pyfdb-python-package-staging", "FDB5_DIR": s, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}, **(env or {})), "plain", slot=slot, prog=[VENV, WORKER])
SCHEMAS = [TYPES + "[class, expver, stream, date, time, domain?\n [type, levtype\n  [step, levelist?, param, number?]]]\n", TYPES + "[class, expver, stream, date\n [type, levtype, time, number?\n  [levelist?, param, step, domain?]]]\n"]
NAMES = [["class", "expver", "stream", "date", "time", "domain", "type", "levtype", "step", "levelist", "param", "number"], ["class", "expver", "stream", "date", "type", "levtype", "time", "number", "levelist", "param", "step", "domain"]]
POOL = dict(VALS, **{"class": ["od", "rd"], "expver": ["0001", "abcd", "0023"], "type": ["an", "fc", "pf"], "levtype": ["pl", "sfc"], "stream": ["oper", "enfo"]})
RANGES = [(["6", "12"], "6/to/12/by/6"), (["6", "12", "18", "24"], "6/to/24/by/6"), (["12", "24"], "12/to/24/by/12"), (["24", "48"], "24/to/48/by/24"), (["0", "6", "12"], "0/to/12/by/6"), (["12", "24", "36", "48"], "12/to/48/by/12"), (["6", "18"], "6/to/24/by/12"), (["0", "24", "48"], "0/to/48/by/24"), (["12", "6", "0"], "12/to/0/by/6")]
def field_ident(rng, names, base=None):
    d = dict(base) if base and rng.random() < .75 else {}
    if d:
        for k in rng.sample(MULTI, rng.choice([1, 1, 2, 3])): d[k] = rng.choice(POOL[k])
    else: d = {k: rng.choice(POOL[k][:2 if k in ("class", "expver", "date") else None]) for k in POOL}      # without a domain: given to all or none
    if d["levtype"] == "sfc": d.pop("levelist", None)
    else: d.setdefault("levelist", rng.choice(POOL["levelist"]))
    if d["type"] != "pf": d.pop("number", None); d["stream"] = "oper"
    else: d.setdefault("number", rng.choice(POOL["number"])); d["stream"] = "enfo"
    return d
def typed(rng, k, vs, pl):
    """A value of a selection: how a Python user may write these values."""
    m = rng.random(); intish = all(re.fullmatch("0|[1-9][0-9]*", v) for v in vs) or k in ("time", "expver") and all(v.isdigit() for v in vs)
    s = spell(rng, k, vs, pl) if rng.random() < .6 else "/".join(vs)
    parts = s.split("/"); plain = parts == vs
    if len(vs) == 1 and "to" not in parts:
        if intish and plain and m < .4: return ["int", vs]
        if k == "levelist" and plain and m < .5: return ["float", vs]
        if m < .7: return ["str", parts]
    if "to" in parts: return [rng.choice(["slash", "slash", "list", "tuple"]), parts]
    if plain and intish and m < .3: return [rng.choice(["ints", "mixed"]), vs]
    return [rng.choice(["slash", "list", "tuple"] + (["set", "frozenset", "keys"] if len(set(parts)) == len(parts) else [])), parts]
@st.composite
def cases(draw):
    seed = draw(st.integers(0, 10 ** 12)); rng = random.Random(seed); pick = rng.choice; schema = pick([0, 1]); names = NAMES[schema]
    base = field_ident(rng, names); pool = [base] + [field_ident(rng, names, base) for _ in range(pick([0, 2, 4, 7]))]
    if rng.random() < .6:
        for d in pool: d["domain"] = "g"
    big = rng.random() < .25; items = []; events = []
    for _ in range(pick([1, 2, 2, 3, 4])):
        ev = [[rng.randrange(len(pool)), pick([1, 2, 7, 100, 1023, 1024, 1025, 4096] if not big else [1, 1024, 5000, 65536, 70000])] for _ in range(pick([1, 1, 2, 3, 6]))]
        events.append({"by": pick(["python", "python", "python", "with", "grib", "native", "str"]), "form": pick(["dict", "list"]), "items": ev, "bad": pick([None] * 9 + ["missing", "extra", "slash", "list", "dup", "empty"]), "twice": rng.random() < .2})
    queries = []
    for _ in range(pick([2, 4, 6])):
        q = {"op": pick(["list", "list", "list", "retrieve", "retrieve", "retrieve", "inspect", "axes", "stats", "status", "wipe", "purge", "elem", "enabled", "bad", "bad"]), "level": pick([3, 3, 3, 2, 1]), "masked": rng.random() < .4, "read": rng.random() < .4, "drop": rng.random() < .2, "map": pick(["dict", "dict", "proxy", "ordered"]), "stop": pick([None] * 6 + [0, 1, 2]), "porcelain": rng.random() < .3}
        b = pick(pool); full = q["op"] in ("retrieve", "inspect"); sel = []
        pl = b["levtype"] == "pl"; keep = [k for k in names if k in b]
        if not full:
            m = rng.random()
            if m < .15: keep = []
            elif m < .75: keep = [k for k in keep if rng.random() < .5]
        wide = rng.random() < .6
        for k in keep:
            vs = [b[k]]
            if k in MULTI and wide and rng.random() < .5:
                n = pick([1, 2, 2, len(POOL[k])]); vs = list(POOL[k]) if rng.random() < .3 else [b[k]] + [v for v in rng.sample(POOL[k], n) if v != b[k]][:n - 1]
                if rng.random() < .4: vs.sort(key=POOL[k].index)
            runs = [r for r in RANGES if b[k] in r[0]] if k == "step" else []
            if runs and wide and rng.random() < .3: vs, text = pick(runs); sel.append([k, vs, [pick(["slash", "slash", "list", "tuple"]), text.split("/")]])
            else: sel.append([k, vs, typed(rng, k, vs, pl and "levtype" in keep and full)])
        if rng.random() < .4: rng.shuffle(sel)
        q["sel"] = sel
        if q["op"] == "bad": q["bad"] = pick(["keyword", "date", "step", "class", "none", "mapping", "retrieve empty", "level", "object", "levtype"])
        if q["op"] in ("retrieve", "elem"): q["prog"] = program(rng, big)
        q["which"] = rng.randrange(20); queries.append(q)
    mod = pick([None, "wipe", "wipe", "purge", "control", "control"])
    return {"schema": schema, "pool": pool, "events": events, "queries": queries, "mod": mod, "modsel": rng.choice([0, 1, 2]), "modmap": pick(["dict", "proxy"]), "action": pick(["disable", "disable", "enable"]), "ids": rng.sample(["list", "retrieve", "archive", "wipe"], pick([1, 1, 2, 3])), "flag": rng.random() < .3, "force": rng.random() < .2,
            "confkind": pick(["dict", "yaml", "json", "path"]), "userkind": pick(["dict", "yaml", "json", "path"]), "user": pick([None, None, {"useSubToc": True}, {"useSubToc": False}, {}, {"preloadTocBTree": True, "useSubToc": True}]), "default": pick([None] * 24 + ["FDB_CONFIG", "FDB5_CONFIG", "FDB_CONFIG_FILE", "FDB5_CONFIG_FILE", "FDB_HOME"]), "root": pick(["root"] * 8 + ["ro ot", "r#oot", "r?oot", "r%20oot", "r=oot"]), "threads": rng.random() < .15, "seed": seed}
def program(rng, big):
    pick = rng.choice; sizes = [1, 2, 3, 10, 100, 1000, 1024, 4096] + ([65536, 100000, 8191] if big else [7, 31]); p = []
    if rng.random() < .9: p.append(["open"])
    for _ in range(pick([1, 2, 3, 5, 9])):
        m = rng.random()
        if m < .3: p.append([pick(["read", "readkw"]), pick(sizes)])
        elif m < .38: p.append(["read", 0])
        elif m < .48: p.append(pick([["read"], ["read", -1], ["readkw", -1]]))
        elif m < .7: p.append(["readinto", pick(["bytearray", "bytearray", "mv", "mv", "numpy", "short", "2d", "bytes", "romv", "rev", "step"]), pick(sizes)])
        elif m < .78: p.append(["copy"] + pick([[], [pick(sizes)], [pick(sizes)]]))
        elif m < .84: p.append(["readall"] + pick([[], [pick(sizes)]]))
        elif m < .89: p.append(["size"])
        elif m < .94: p.append(["close"]); p += pick([[], [["open"]], [["open"]]])
        elif m < .97: p.append(["with", pick(sizes)])
        else: p.append(["open"])
    if rng.random() < .5: p.append(pick([["readall"], ["copy"], ["read"]]))
    if rng.random() < .3: p += [["open"], ["readall"]]
    return p
def check_program(prog, out, data, labels):
    """A byte stream over data: opened and closed at will, each opening at the start."""
    pos = 0; opened = False; rest = lambda: data[pos:]; why = lambda i, x: "reading program %s, step %d: %s (%d bytes, at %d)" % (prog[:i + 1], i, x, len(data), pos)
    for i, (s, r) in enumerate(zip(prog, out)):
        w = s[0]; exc = r.get("exc"); labels.add("handle " + w)
        if w in ("open", "close"):
            if exc: raise Violation(why(i, "%s: %s" % (exc, r["what"])))
            if w == "open" and not opened: opened = True; pos = 0
            if w == "close": opened = False
            continue
        if w == "size":
            if exc or r["n"] != len(data): raise Violation(why(i, "size %s" % r))
            continue
        if w in ("readall", "with"):
            if exc: raise Violation(why(i, "%s: %s" % (exc, r["what"])))
            if not opened: pos = 0
            opened = False; want = rest() if w == "readall" else rest()[:s[1]]; got = bytes.fromhex(r["hex"])
            if got != want and not (w == "with" and want.startswith(got) and got): raise Violation(why(i, "%d bytes in place of %d" % (len(got), len(want))))
            continue
        if not opened:
            if exc is None and not (w == "readinto" and r.get("n") == 0): raise Violation(why(i, "read from a handle that is not open: %s" % str(r)[:200]))
            if r.get("changed"): raise Violation(why(i, "buffer changed without being read into"))
            continue
        if w == "readinto" and r.get("cov") is None:      # read-only or scattered: refused, or nothing but the right bytes
            if r.get("changed") or exc is None: raise Violation(why(i, "reading into a buffer of kind %s was accepted: %s" % (s[1], str(r)[:200])))
            labels.add("unsuitable buffer"); continue
        if exc: raise Violation(why(i, "%s: %s" % (exc, r["what"])))
        got = bytes.fromhex(r["hex"]); n = len(data) if w == "copy" or w in ("read", "readkw") and (len(s) == 1 or s[1] == -1) else s[2] if w == "readinto" else s[1]
        if w == "readinto": n = r["cov"][1]
        if len(got) > n: raise Violation(why(i, "%d bytes, more than asked for" % len(got)))
        if not rest().startswith(got): raise Violation(why(i, "wrong bytes"))
        if w == "readinto" and not r["clean"]: raise Violation(why(i, "wrote outside the part of the buffer it said it read into"))
        if not got and n and rest(): raise Violation(why(i, "nothing read before the end"))
        if (w == "copy" or n == len(data) and w in ("read", "readkw") and (len(s) == 1 or s[1] == -1)) and len(got) != len(rest()): raise Violation(why(i, "%d bytes, not all of the %d left" % (len(got), len(rest()))))
        pos += len(got)
class C29(Check):
    prop = "C29"; quick = 600; thorough = 20000; targets = ("vdriver", "vgrib", "pyfdb_bindings")
    rule = ("cases: archives written through Python (identifiers as dictionaries and lists, GRIB messages, the context manager) and natively, in turn, with configurations and user configurations given as dictionaries, YAML, JSON, files or by the environment; queries (list at each level, masked or not, inspect, axes, stats, status, dry wipe and purge) through Python, with selections of scalars, lists, tuples, sets, ranges and spellings, against the native answer to the canonical request; programs of reads on data handles against the bytes; "
            "wipes, purges and controls on the archive against native ones on a copy; non-trivial: a query with elements or bytes that was given with other than plain strings, or a reading program of more than two steps over data")
    def strategy(self): return cases()
    def run(self, c):
        rng = random.Random(c["seed"] + 1); names = NAMES[c["schema"]]; labels = set(); nontrivial = False
        with Scratch() as sc:
            schema = sc.write("schema", SCHEMAS[c["schema"]]); root = sc.mkdir(c["root"]); user = c["user"] if not (c["default"] or "").endswith("CONFIG") else None      # a configuration given in the environment is not extended (test_config.cc)
            confd = {"type": "local", "engine": "toc", "schema": schema, "spaces": [{"handler": "Default", "roots": [{"path": root}]}]}
            env = {}
            if c["default"]:
                labels.add("default configuration")
                if c["default"].endswith("CONFIG"): env[c["default"]] = json.dumps(confd)
                elif c["default"] == "FDB_HOME": sc.mkdir("home"); sc.mkdir("home/etc"); sc.mkdir("home/etc/fdb"); sc.write("home/etc/fdb/config.yaml", json.dumps(confd)); env["FDB_HOME"] = sc.d + "/home"
                else: env[c["default"]] = sc.write("conf.yaml", json.dumps(confd))
            py = python(env); nat = driver({}, "plain"); H = os.path.basename(sc.d); nn = [0]
            try: return self.work(c, rng, names, labels, sc, confd, root, schema, user, py, nat, H, nn)
            finally:
                for i in range(nn[0] + 1):
                    if py.alive(): py.raw("pclose", h="%s%d" % (H, i))
                    if nat.alive(): nat.raw("close", h="%s%d" % (H, i))
                if c["default"]:
                    for k in [k for k in vf._pool if vf._pool[k] is py]: vf._pool.pop(k)
                    py.close()
    def work(self, c, rng, names, labels, sc, confd, root, schema, user, py, nat, H, nn):
        nontrivial = False
        def popen():
            nn[0] += 1; h = "%s%d" % (H, nn[0]); k = lambda x: sc.d + "/c%d%s.yaml" % (nn[0], x) if c[x + "kind"] == "path" else c[x + "kind"]
            py.ok("popen", h=h, config=None if c["default"] else confd, configkind=sc.d + "/c%d.yaml" % nn[0] if c["confkind"] == "path" else c["confkind"], user=user, userkind=k("user")); return h
        def nopen(cfg=None): nn[0] += 1; h = "%s%d" % (H, nn[0]); nat.ok("open", h=h, config=json.dumps(cfg or confd), user="{}"); return h
        def args(q): return dict(sel=[[k, t] for k, vs, t in q["sel"]], map=q["map"])
        def canon(q): return [[k, list(dict.fromkeys(vs))] for k, vs, t in q["sel"]]
        # --- configuration
        h = popen(); r = py.ok("pconfig", h=h)
        for k, v in confd.items():
            if r["system"].get(k) != v: raise Violation("the configuration given with %s = %s reads back as %s" % (k, v, r["system"].get(k)))
        if (user or {}) != (r["user"] or {}): raise Violation("the user configuration %s (configuration: %s) reads back as %s" % (user, c["default"] or "given", r["user"]))
        if py.ok("pdirty", h=h)["v"]: raise Violation("dirty before anything was archived")
        # --- history
        model = {}; serial = 0; used_py = False; orphan = False
        for ev in c["events"]:
            by = ev["by"]; items = []; one = (user or {}).get("useSubToc")      # with sub-tables of contents there is one writer at a time
            for n, size in ev["items"]:
                d = c["pool"][n]; serial += 1; key = {k: d[k] for k in names if k in d}
                if by == "grib":
                    if "domain" not in d: continue
                    m, mars = grib.message("GRIB2", (serial, 2, 3, serial % 7), **{k: v for k, v in d.items() if k != "domain" and not (k == "number" and d["type"] != "pf")}) if d["type"] != "pf" else (None, None)
                    if m is None: continue
                    if any(mars.get(k, "").lower() not in (d[k], d[k].lstrip("0") or "0") for k in names if k in d): continue
                    data = m
                else: data = fill(serial, size) if by != "str" else ("é%dß" % serial * (size // 4 + 1)).encode()
                items.append((key, data))
            if by == "native":
                h2 = nopen()
                for key, data in items: nat.ok("archive", h=h2, key=list(key.items()), data={"hex": data.hex()})
                nat.ok("flush", h=h2); nat.ok("close", h=h2)
            elif by == "with": h = popen(); py.ok("pwith", h=h, items=[[list(k.items()), d.hex()] for k, d in items]); used_py |= bool(items)
            else:
                if rng.random() < .5 or one: h = popen()
                if by == "grib" and items and rng.random() < .5: py.ok("parchive", h=h, hex=b"".join(d for _, d in items).hex()); labels.add("grib")
                else:
                    for key, data in items: py.ok("parchive", h=h, hex=data.hex(), key=None if by == "grib" else list(key.items()), form=ev["form"], **{"as": by})
                if items and not py.ok("pdirty", h=h)["v"]: raise Violation("not dirty after archiving")
                py.ok("pflush", h=h); used_py |= bool(items)
                if py.ok("pdirty", h=h)["v"]: raise Violation("dirty after a flush")
            if one: py.ok("pclose", h=h)
            if items: labels.add("archived: " + by)
            for key, data in items: model.setdefault(ident(key), []).append(data)
            if ev["bad"] and ev["items"]:
                d = c["pool"][ev["items"][0][0]]; key = [[k, d[k]] for k in names if k in d]; b = ev["bad"]; labels.add("refused archive")
                if b == "missing": key = [x for x in key if x[0] != "param"]
                elif b == "extra": key.append(["foo", "1"])
                elif b == "slash": key[0][1] = "od/rd"
                elif b == "list": key[0][1] = ["od"]
                elif b == "dup": key.append(key[0])
                elif b == "empty": key = []
                hb = popen(); r = py.raw("parchive", h=hb, hex="00ff", key=key, form="list"); py.raw("pflush", h=hb); py.raw("pclose", h=hb); orphan = True
                if r["ok"]: raise Violation("archiving with the identifier %s was accepted" % key)
        hn = nopen()
        # --- what was written is there, as seen natively
        r = nat.ok("list", h=hn, req=[], all=True, mode="full", read=True); seen = {}
        for e in r["elems"]: seen.setdefault(elem_ident(e), []).append(e["data"])
        if set(seen) != set(model): raise Violation("archived: %s, natively listed: %s" % (sorted(set(model) - set(seen))[:3], sorted(set(seen) - set(model))[:3]))
        for k, v in model.items():
            got = sorted(x["md5"] for x in seen[k])
            if not set(got) <= {hashlib.md5(x).hexdigest() for x in v}: raise Violation("the data natively read for %s are not those archived through Python" % (k,))
        for e in nat.ok("list", h=hn, req=[], all=True, mode="dedup", read=True)["elems"]:
            if not same(e["data"], model[elem_ident(e)][-1]): raise Violation("%s natively reads as an earlier version, not the last one archived through Python" % (elem_ident(e),))
        if used_py and (user or {}).get("useSubToc") is not None:
            sub = any(f.startswith("toc.") for _, _, fs in os.walk(root) for f in fs)
            if user["useSubToc"] and not sub: raise Violation("archived with the user configuration %s (configuration: %s), yet there are no sub-tables of contents" % (user, c["default"] or "given"))
            labels.add("user configuration")
        def same_elems(q, pe, ne, what):
            a = []; b = []
            for e in pe:
                if len(e["keys"]) != 3: raise Violation("%s: an element with keys at %d levels" % (what, len(e["keys"])))
                m = {}
                for lv in e["keys"]: m.update(lv)
                if m != e["combined"]: raise Violation("%s: the combined key %s of an element with keys %s" % (what, e["combined"], e["keys"]))
                if e["loc"] != (e["uri"] is not None): raise Violation("%s: location %s, URI %s" % (what, e["loc"], e["uri"]))
                a.append((tuple(ident(x) for x in e["keys"]), e["off"], e["len"], e["path"] if e["loc"] else None))
            for e in ne:
                lv = [ident(dict(map(tuple, x))) for x in e["keys"]]; lv += [()] * (3 - len(lv))
                b.append((tuple(lv), e.get("off"), e.get("len"), e.get("path")))
            return a, b
        def cmp(what, q, a, b):
            if sorted(a, key=repr) != sorted(b, key=repr): raise Violation("%s with %s (natively %s): through Python %s, natively %s" % (what, args(q)["sel"], canon(q), sorted(set(a) - set(b), key=repr)[:2] or a[:2], sorted(set(b) - set(a), key=repr)[:2] or b[:2]), q=q)
        jobs = []
        for q in c["queries"]:
            op = q["op"]; h = popen() if rng.random() < .6 or op in ("retrieve", "inspect") or True else h; allq = not q["sel"]; kw = args(q); lists = any(t[0] not in ("str",) for k, vs, t in q["sel"]); labels |= {"as " + t[0] for k, vs, t in q["sel"]}
            if op in ("retrieve", "inspect") and allq: continue
            hn = nopen()
            def fail(r, n, q=q, op=op):
                """Both fail or both answer."""
                if r["ok"] != n["ok"]: raise Violation("%s with %s: through Python %s, natively %s" % (op, args(q)["sel"], "answered" if r["ok"] else r, "answered" if n["ok"] else n), q=q)
                if not r["ok"]: labels.add("refused on both sides")
                return not r["ok"]
            if op == "list":
                if q["stop"] is not None:
                    r = py.ok("plist", h=h, masked=q["masked"], level=q["level"], stop=q["stop"], **kw); ne = nat.ok("list", h=hn, req=canon(q), all=allq, mode="full" if q["masked"] else "dedup", level=q["level"])["elems"]
                    a, b = same_elems(q, r["elems"], ne, "list")
                    if len(a) != min(q["stop"], len(b)) or not set(a) <= set(b): raise Violation("a listing abandoned after %d elements: %s of %s" % (q["stop"], a, b))
                    labels.add("abandoned"); continue
                r = py.raw("plist", h=h, masked=q["masked"], level=q["level"], read=q["read"], drop=q["drop"], **kw); n = nat.raw("list", h=hn, req=canon(q), all=allq, mode="full" if q["masked"] else "dedup", level=q["level"], read=q["read"])
                if fail(r, n): continue
                a, b = same_elems(q, r["elems"], n["elems"], "list"); cmp("list (level %d%s)" % (q["level"], ", masked" if q["masked"] else ""), q, a, b); labels |= {"list level %d" % q["level"]} | ({"masked"} if q["masked"] else set())
                if q["read"] and q["level"] == 3:
                    pd = {(e["path"], e["off"]): e["hex"] for e in r["elems"]}
                    for e in n["elems"]:
                        if e["len"] <= 300000 and pd[(e["path"], e["off"])] != e["data"]["hex"]: raise Violation("the data handle of the element at %s:%d gives other bytes than natively" % (e["path"], e["off"]))
                    labels.add("element handles")
                nontrivial |= bool(a) and lists
            elif op == "inspect":
                r = py.raw("pinspect", h=h, **kw); n = nat.raw("inspect", h=hn, req=canon(q))
                if fail(r, n): continue
                a, b = same_elems(q, r["elems"], n["elems"], "inspect"); cmp("inspect", q, a, b); nontrivial |= bool(a) and lists; labels.add("inspect")
            elif op in ("retrieve", "elem"):
                if op == "elem":
                    ne = nat.ok("list", h=hn, req=canon(q), all=allq, mode="dedup", read=True)["elems"]
                    if not ne: continue
                    e = ne[q["which"] % len(ne)]; data = bytes.fromhex(e["data"]["hex"])
                    # the order of listings is that of the directories: the same on both sides
                else:
                    n = nat.raw("retrieve", h=hn, req=canon(q))
                    if n["ok"] and "hex" not in n: continue
                    if not n["ok"]:
                        r = py.raw("pretrieve", h=h, prog=[["open"], ["readall"]], **kw); bad = not r["ok"] or any("exc" in x for x in r["out"])
                        if not bad: raise Violation("retrieve with %s: natively %s, through Python answered" % (kw["sel"], n))
                        labels.add("refused on both sides"); continue
                    data = bytes.fromhex(n["hex"])
                r = py.ok("pretrieve", h=h, prog=q["prog"], ref=op == "retrieve", drop=q["drop"], **dict(kw, elem=q["which"] if op == "elem" else None))
                if op == "retrieve":      # the order of the fields is free
                    parts = []
                    for e in nat.ok("inspect", h=hn, req=canon(q))["elems"]:
                        with open(e["path"], "rb") as f: f.seek(e["off"]); parts.append(f.read(e["len"]))
                    ref = bytes.fromhex(r["ref"])
                    if not segments(ref, parts): raise Violation("retrieve with %s: %d bytes that are not the %d fields natively found (%d bytes)" % (kw["sel"], len(ref), len(parts), len(data)), q=q)
                    data = ref
                check_program(q["prog"], r["out"], data, labels); nontrivial |= bool(data) and len(q["prog"]) > 2; labels |= {"retrieve" if data else "retrieve nothing"} | ({"handle outlives FDB"} if q["drop"] else set())
            elif op == "axes":
                r = py.raw("paxes", h=h, level=q["level"], **kw); n = nat.raw("axes", h=hn, req=canon(q), all=allq, level=q["level"])
                if fail(r, n): continue
                if r["axes"] != n["axes"]: raise Violation("axes (level %d) with %s: through Python %s, natively %s" % (q["level"], kw["sel"], r["axes"], n["axes"]))
                if any(v != r["axes"] for v in r["views"]) or r["len"] != len(r["axes"]) or not r["eq"] or not all(r["in"]): raise Violation("the axes, as a mapping, contradict themselves: %s" % {k: v for k, v in r.items() if k != "ok"})
                nontrivial |= bool(r["axes"]) and lists; labels.add("axes")
            elif op == "stats":
                r = py.raw("pstats", h=h, **kw); n = nat.raw("stats", h=hn, req=canon(q), all=allq)
                if fail(r, n): continue
                cmp("stats", q, [(e["ireport"], e["report"]) for e in r["elems"]], [(e["ireport"], e["report"]) for e in n["elems"]]); labels.add("stats")
            elif op == "status":
                r = py.raw("pstatus", h=h, **kw); n = nat.raw("status", h=hn, req=canon(q), all=allq)
                if fail(r, n): continue
                self.controls("status", q, kw, r, n); labels.add("status")
            elif op == "wipe":
                r = py.raw("pwipe", h=h, doit=False, porcelain=q["porcelain"], **kw); n = nat.raw("wipe", h=hn, req=canon(q), all=allq, doit=False, porcelain=q["porcelain"])
                if fail(r, n): continue
                f = lambda e: (e["type"], e["msg"], tuple(sorted(e["uris"]))); cmp("wipe, dry", q, [f(e) for e in r["elems"]], [f(e) for e in n["elems"]]); labels.add("dry wipe")
            elif op == "purge":
                r = py.raw("ppurge", h=h, doit=False, porcelain=q["porcelain"], **kw); n = nat.raw("purge", h=hn, req=canon(q), all=allq, doit=False, porcelain=q["porcelain"])
                if fail(r, n): continue
                cmp("purge, dry", q, r["elems"], n["elems"]); labels.add("dry purge")
            elif op == "enabled":
                if sorted(py.ok("penabled", h=h)["v"]) != sorted(nat.ok("enabled", h=hn)["v"]): raise Violation("enabled differs")
            else:
                b = q["bad"]; sel = [x for x in kw["sel"]]; full = dict((k, d) for k, d in c["pool"][0].items() if k in names); labels.add("malformed selection")
                put = lambda k, v: [x for x in sel if x[0] != k] + [[k, v]]
                if b == "keyword": sel = put("nosuchkeyword", ["str", ["1"]])
                elif b == "date": sel = put("date", ["str", ["20201345"]])
                elif b == "step": sel = put("step", ["str", ["six"]])
                elif b == "class": sel = put("class", ["list", ["od", "nosuchclass"]])
                elif b == "levtype": sel = put("levtype", ["int", ["17"]])
                elif b == "none": sel = put("class", ["raw", None])
                elif b == "mapping": sel = put("class", ["raw", {"a": 1}])
                elif b == "object": sel = put("step", ["raw", [[1]]])
                elif b == "retrieve empty": sel = []
                elif b == "level":
                    r = py.raw("plist", h=h, sel=sel, masked=False, level="x")
                    if r["ok"]: raise Violation("listing at level 'x' was accepted")
                    continue
                r = py.raw("pretrieve", h=h, sel=sel, prog=[["readall"]]) if b == "retrieve empty" or q["masked"] else py.raw("plist", h=h, sel=sel, masked=False, level=3)
                if b in ("keyword", "date", "step", "class", "levtype"):
                    n = nat.raw("list", h=hn, reqstr=",".join("%s=%s" % (k, "/".join(t[1])) for k, t in sel), mode="dedup") if not q["masked"] else nat.raw("axes", h=hn, reqstr=",".join("%s=%s" % (k, "/".join(t[1])) for k, t in sel))
                    if n["ok"] != r["ok"]: raise Violation("a selection of %s: through Python %s, natively %s" % (sel, str(r)[:300], str(n)[:300]), bad=b)
                    if r["ok"] and not q["masked"]: a, b2 = same_elems(q, r["elems"], n["elems"], "list"); cmp("list", dict(q, sel=[]), a, b2)
                elif r["ok"]: raise Violation("a selection of %s was accepted: %s" % (sel, str(r)[:300]), bad=b)
        if c["threads"]:
            hs = [popen() for _ in range(3)]; qs = [q for q in c["queries"] if q["op"] == "list"][:3]
            jobs = [dict(op="plist", h=hs[i], masked=False, level=3, **args(q)) for i, q in enumerate(qs)]
            if jobs:
                alone = [py.raw(**j) for j in jobs] if False else [py.raw("plist", **{k: v for k, v in j.items() if k != "op"}) for j in jobs]; out = py.ok("pconcur", jobs=jobs)["out"]
                for x, y in zip(alone, out):
                    if x["ok"] != y["ok"] or x["ok"] and sorted(map(str, x["elems"])) != sorted(map(str, y["elems"])): raise Violation("an instance per thread: %s alone, %s together" % (str(x)[:300], str(y)[:300]))
                labels.add("threads")
        # --- modifications: through Python on the archive, natively on a copy
        if c["mod"] and model:
            for i in range(nn[0] + 1): py.ok("pclose", h="%s%d" % (H, i)); nat.ok("close", h="%s%d" % (H, i))      # no writer has the archive open
            twin = sc.d + "/twin"; shutil.copytree(root, twin, symlinks=True); conf2 = dict(confd, spaces=[{"handler": "Default", "roots": [{"path": twin}]}])
            b = c["pool"][0]; lv = [[k for k in names if k in b][:n] for n in (lambda l, i: ([0, l - 1, l], [l, l, l], [i - 1, i, i]))(4 if c["schema"] else 5 + ("domain" in b), 6 + ("number" in b) if c["schema"] else 7 + ("domain" in b))[rng.randrange(3)]][c["modsel"]]
            if c["mod"] == "purge" or c["mod"] == "control": lv = lv[:4 if c["schema"] else 5 + ("domain" in b)]
            q = {"sel": [[k, [b[k]], typed(rng, k, [b[k]], False)] for k in lv], "map": c["modmap"]}; kw = args(q); allq = not lv; h = popen(); hn = nopen(conf2); h2 = None; m = c["mod"]
            repl = lambda s: s.replace(twin, root)
            def tree(d): return {os.path.relpath(os.path.join(p, f), d): os.path.getsize(os.path.join(p, f)) for p, _, fs in os.walk(d) for f in fs}
            if m == "wipe": r = py.raw("pwipe", h=h, doit=True, force=c["force"], **kw); n = nat.raw("wipe", h=hn, req=canon(q), all=allq, doit=True, force=c["force"]); f = lambda e: (e["type"], repl(e["msg"]), tuple(sorted(map(repl, e["uris"]))))
            elif m == "purge": r = py.raw("ppurge", h=h, doit=True, **kw); n = nat.raw("purge", h=hn, req=canon(q), all=allq, doit=True); f = repl
            else: r = py.raw("pcontrol", h=h, action=c["action"], ids=c["ids"], flag=c["flag"], **kw); n = nat.raw("control", h=hn, req=canon(q), all=allq, action=c["action"], ids=c["ids"])
            if r["ok"] != n["ok"]: raise Violation("%s with %s: through Python %s, natively %s" % (m, kw["sel"], str(r)[:500], str(n)[:500]))
            labels.add(("%s done" if r["ok"] else "%s refused") % m)
            if r["ok"] and m != "control": cmp(m, q, [f(e) for e in r["elems"]], [f(e) for e in n["elems"]])
            if r["ok"] and m == "control":
                for e in n["elems"]: e["loc"] = repl(e["loc"])
                self.controls("control", q, kw, r, n)
            py.ok("pclose", h=h); nat.ok("close", h=hn); a, b2 = tree(root), tree(twin)
            if a != b2: raise Violation("after %s with %s the archive has %s, a copy treated natively %s" % (m, kw["sel"], sorted(set(a.items()) - set(b2.items()))[:4], sorted(set(b2.items()) - set(a.items()))[:4]))
            q0 = {"sel": [], "map": "dict"}; h = popen(); hn = nopen(conf2); r = py.ok("plist", h=h, sel=[], masked=True, level=3); n = nat.ok("list", h=hn, req=[], all=True, mode="full")
            for e in n["elems"]: e["path"] = repl(e["path"])
            x, y = same_elems(q0, r["elems"], n["elems"], "list"); cmp("list after " + m, q0, x, y)
            if m == "control":
                h = popen(); hn = nopen(conf2); r = py.ok("pstatus", h=h, sel=[]); n = nat.ok("status", h=hn, req=[], all=True)
                for e in n["elems"]: e["loc"] = repl(e["loc"])
                self.controls("status after control", q0, {"sel": []}, r, n)
                full = [[k, [c["pool"][0][k]]] for k in names if k in c["pool"][0]]; n = nat.raw("retrieve", h=hn, req=full); r = py.raw("pretrieve", h=popen(), sel=[[k, ["str", v]] for k, v in full], prog=[["readall"]])
                pb = r["out"][0].get("hex") if r["ok"] else None
                if (n.get("hex") if n["ok"] else None) != pb: raise Violation("retrieving after control: natively %s, through Python %s" % (str(n)[:200], str(r)[:200]))
        return {"labels": sorted(labels), "nontrivial": nontrivial, "count": len(c["queries"])}
    def controls(self, what, q, kw, r, n):
        f = lambda e: (ident({k: v[0] if isinstance(v, list) and len(v) == 1 else str(v) for k, v in e["key"].items()}), e["loc"], tuple(sorted(e["enabled"])))
        g = lambda e: (ident(dict(map(tuple, e["key"]))), e["loc"], tuple(x for x in ("archive", "list", "retrieve", "uniqueroot", "wipe") if x not in e["enabled"]))      # Python names the disabled ones
        a = sorted(map(f, r["elems"])); b = sorted(map(g, n["elems"]))
        if a != b: raise Violation("%s with %s: through Python %s, natively %s" % (what, kw["sel"], a[:3], b[:3]), q=q)
if __name__ == "__main__": main(C29())
