import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
# ---- schema ASTs.  predicate: [keyword, type|None, kind, [values]]; kinds: any opt hid = !
VALS = {"dbl": ["1", "1.0", "0.5", "2"], "stp": ["0", "6", "06", "0-24"], "yr": ["20200115", "20210228"]}
DEF = ["x", "y", "z", "1", "a-b", "X"]
TYPES = {"dbl": "Double", "stp": "Step", "yr": "Year"}
def vals(k): return VALS.get(k, DEF)
def canon(t, v):
    if v == "": return v
    if t == "Double": f = float(v); return str(int(f)) if f == int(f) else repr(f)
    if t == "Step": return {"06": "6"}.get(v, v)
    if t == "Year": return v[:4]
    if t == "Ignore": return ""
    return v.lower()
def text(schema):
    def pred(p):
        k, t, kind, vs = p; s = k + (":" + t if t else "")
        if kind == "?": s += "?" + "".join(vs)
        elif kind == "-": s += "-" + "".join(vs)
        elif kind == "=": s += "=" + "/".join(vs)
        elif kind == "!": s += "=!" + "/".join(vs)
        return s
    sp = schema["sp"]
    def rule(r, lv):
        return "[" + ("," + sp).join(map(pred, r["p"])) + "".join(sp + rule(c, lv + 1) for c in r.get("c", [])) + "]"
    return "".join("%s:%s;%s" % (k, v, sp or "\n") for k, v in schema["types"]) + ("# comment [\n" if sp == "\n" else "") + "\n".join(rule(r, 0) for r in schema["rules"]) + "\n"

class Refused(Exception): pass
def rtypes(schema, chain):
    """The type of each keyword as seen in the innermost of the chain of rules."""
    t = dict(map(tuple, schema["types"]))
    for r in chain:
        for k, ty, kind, vs in r["p"]:
            if ty: t[k] = ty
            elif kind == "-": t[k] = "Ignore"
    return t
def own(schema, chain):
    """Types for the keys of the last rule of the chain."""
    return rtypes(schema, chain)
def matches(r, key):
    for k, t, kind, vs in r["p"]:
        if kind == "=" and key.get(k) not in vs: return False
        if kind == "!" and k in key and key[k] in vs: return False
    if any(kind in ("any", "!") and k not in key for k, t, kind, vs in r["p"]): 
        if len(key) < sum(kind not in "?-" for k, t, kind, vs in r["p"]): return False
        raise Refused
    return len(key) >= sum(kind not in "?-" for k, t, kind, vs in r["p"])
ALIAS = {"Year": "year", "Month": "month"}
def levelkey(schema, chain, key):
    t = own(schema, chain); out = []
    for k, ty, kind, vs in chain[-1]["p"]:
        v = ("".join(vs) if kind == "-" else key.get(k, ""))
        out.append((ALIAS.get(t.get(k), k), canon(t.get(k), v)))
    return out
def expand(schema, key):
    """(db, index, datum) of an identifier, or None if it is refused."""
    key = {k: v.lower() for k, v in key.items()}      # a Key holds lower-case values
    try:
        for r in schema["rules"]:
            if not matches(r, key): continue
            for i in r["c"]:
                if not matches(i, key): continue
                d = i["c"][0]
                if not matches(d, key): continue
                return levelkey(schema, [r], key), levelkey(schema, [r, i], key), levelkey(schema, [r, i, d], key)
    except Refused: pass
    return None
def expand_req(schema, req, missing=""):
    """The database keys a request may refer to."""
    out = set()
    for r in schema["rules"]:
        t = own(schema, [r]); cols = []
        for k, ty, kind, vs in r["p"]:
            if k not in req: cols.append([missing]); continue
            vv = ["".join(vs)] if kind == "-" else req[k]
            cols.append([v for v in vv if not (kind == "=" and v not in vs) and not (kind == "!" and v in vs)])
        names = [ALIAS.get(t.get(k), k) for k, ty, kind, vs in r["p"]]
        import itertools
        for combo in itertools.product(*cols):
            out.add(tuple(sorted((n, canon(t.get(p[0]), v)) for n, p, v in zip(names, r["p"], combo))))
    return out

@st.composite
def schemas(draw):
    sch = {"sp": draw(st.sampled_from(["", " ", "\n"])), "types": [], "rules": []}
    if draw(st.booleans()): sch["types"] = [[k, TYPES[k]] for k in draw(st.lists(st.sampled_from(["dbl", "stp", "yr"]), unique=True))]
    if draw(st.booleans()): sch["types"].append(["a", "Default"])
    declared = {k for k, v in sch["types"]}
    def pred(k, lv, force=None):
        t = None
        if k in TYPES and k not in declared: t = TYPES[k]
        elif k not in TYPES and draw(st.integers(0, 9)) == 0: t = "Default"
        kind = force or draw(st.sampled_from(["any", "any", "any", "?", "?", "=", "!", "-"]))
        if k == "yr" and kind != "any" or k in TYPES and kind == "!": kind = "any"
        pool = [v for v in vals(k) if v == v.lower() and canon(TYPES.get(k), v) == v]      # a schema names canonical values
        if kind == "=" or kind == "!": vs = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))
        elif kind in "?-" and draw(st.booleans()): vs = [draw(st.sampled_from([v for v in pool if "-" not in v]))]
        else: vs = []
        return [k, t, kind, vs]
    ndb = draw(st.integers(1, 3)); left = list("pqrst")
    for n in range(ndb):
        # database rules are told apart by the value of one keyword
        if n == ndb - 1 and draw(st.booleans()): disc = ["cls", None, "!", [v for r in sch["rules"] for v in r["p"][0][3]] or ["p"]]
        else: disc = ["cls", None, "=", [left.pop(0) for _ in range(draw(st.integers(1, 2)) if len(left) > 2 else 1)]]
        kws = draw(st.permutations(["a", "b", "c", "d", "e", "f", "g", "dbl", "stp", "yr"]))
        nd = draw(st.integers(0, 2)); ni = draw(st.integers(1, 2)); used = nd
        r = {"p": [disc] + [pred(k, 0) for k in kws[:nd]], "c": []}
        nidx = draw(st.integers(1, 3)); seen = set()
        for m in range(nidx):
            p = [pred(k, 1) for k in kws[nd:nd + ni]]
            if nidx > 1:     # index rules too: by the value of their own keyword
                p = [["ty", None, "=", [["an", "fc", "tu"][m]]]] + p
            dk = kws[nd + ni:nd + ni + draw(st.integers(1, 4))]
            r["c"].append({"p": p, "c": [{"p": [pred(k, 2) for k in dk]}]})
        sch["rules"].append(r)
    return sch
@st.composite
def keys_for(draw, sch):
    r = draw(st.sampled_from(sch["rules"])); i = draw(st.sampled_from(r["c"])); d = i["c"][0]; key = {}
    for x in (r, i, d):
        for k, t, kind, vs in x["p"]:
            if kind == "?" and draw(st.booleans()): continue
            if kind == "-" and draw(st.booleans()): continue
            pool = list(vs) if kind == "=" else [v for v in (["p", "q", "r", "s", "t", "u"] if k == "cls" else ["an", "fc", "tu", "u"] if k == "ty" else vals(k))]
            if kind == "!": pool = [v for v in pool if v not in vs] or pool
            key[k] = draw(st.sampled_from(pool))
    what = draw(st.integers(0, 7))
    if what == 0 and key: key.pop(draw(st.sampled_from(sorted(key))))
    elif what == 1 and key: k = draw(st.sampled_from(sorted(key))); key[k] = draw(st.sampled_from(vals(k)))
    elif what == 2: key["zz"] = "1"
    return key
@st.composite
def reqs_for(draw, sch):
    ks = sorted({p[0] for r in sch["rules"] for p in r["p"]}); req = {}
    for k in ks:
        if draw(st.booleans()): req[k] = draw(st.lists(st.sampled_from(["p", "q", "r", "u"] if k == "cls" else vals(k)), min_size=1, max_size=3, unique=True))
    return req
@st.composite
def cases(draw):
    sch = draw(schemas())
    return {"schema": sch, "keys": draw(st.lists(keys_for(sch), min_size=4, max_size=12)), "reqs": draw(st.lists(reqs_for(sch), max_size=3)),
            "mut": draw(st.lists(st.tuples(st.integers(0, 400), st.sampled_from(["del", "[", "]", ",", "=", "/", "?", "-", ":", ";", "!", "x", " ", "#", "dup", "cut"])).map(list), max_size=6))}

def pairs(l): return [tuple(x) for x in l]
def answers(d, s, c):
    """Everything a user can observe of schema s."""
    out = d.ok("seq", ops=[{"op": "scharch", "s": s, "key": k} for k in c["keys"]] + [{"op": "schmatch", "s": s, "req": r, "missing": ""} for r in c["reqs"]])["out"]
    return out
def strip(o): return json.dumps({k: v for k, v in o.items() if k not in ("what", "err", "backerr")}, sort_keys=True)
class C15(Check):
    prop = "C15"; quick = 7000; thorough = 160000; targets = ("vschema",)
    rule = ("cases: a generated schema (1-3 database rules, nested index/datum rules, all predicate kinds, global and per-rule types), identifiers and requests against a model, "
            "again after dump+parse and after stream encoding, and mutated texts; non-trivial: at least one identifier is accepted and the schema has an exclusion, optional, hidden or value predicate")
    def strategy(self): return cases()
    def run(self, c):
        sch = c["schema"]; t = text(sch); d = driver(exe="vschema"); labels = set()
        d.ok("schopen", s="s", text=t)
        a = answers(d, "s", c); acc = 0
        for k, o in zip(c["keys"], a):
            want = expand(sch, k)
            got = (pairs(o["db"]), pairs(o["idx"]), pairs(o["datum"])) if o.get("ok") and o.get("found") else None
            if got != want: raise Violation("schema\n%s\nidentifier %s: expands to %s, expected %s (%s)" % (t, k, got, want, o.get("what", "")))
            if got:
                acc += 1; opt = {p[0] for r in sch["rules"] for x in [r] + r["c"] + [i["c"][0] for i in r["c"]] for p in x["p"] if p[2] in "?"}
                back = None if "back" not in o else pairs(o["back"])
                if back is None or [x for x in back if x[1] != "" and x[0] != "yr"] != [x for x in got[2] if x[1] != "" and x[0] != "year"]: raise Violation("schema\n%s\nfield fingerprint %r of %s reads back as %s %s" % (t, o["fp"], k, back, o.get("backerr", "")))
                n = d.ok("schname", s="s", name=o["dbname"])
                if not n["found"] or pairs(n["key"]) != got[0]: raise Violation("schema\n%s\ndatabase name %r of %s maps to %s" % (t, o["dbname"], got[0], n.get("key")))
            labels.add("accepted" if got else "refused")
        for r, o in zip(c["reqs"], a[len(c["keys"]):]):
            if not o.get("ok"): raise Violation("schema\n%s\nmatching request %s failed: %s" % (t, r, o.get("what")))
            got = {tuple(sorted(pairs(k))) for k in o["keys"]}; want = expand_req(sch, r)
            if got != want: raise Violation("schema\n%s\nrequest %s may refer to databases %s, expected %s" % (t, r, sorted(got), sorted(want)))
        # printing and parsing again, encoding and decoding
        dump = d.ok("schdump", s="s")["text"]
        r = d.raw("schopen", s="p", text=dump)
        if not r["ok"]: raise Violation("schema\n%s\nits printed form\n%s\nis refused: %s" % (t, dump, r["what"]))
        b = answers(d, "p", c)
        if list(map(strip, a)) != list(map(strip, b)): raise Violation("schema\n%s\nbehaves differently when parsed from its printed form\n%s" % (t, dump))
        if d.ok("schdump", s="p")["text"] != dump: raise Violation("printed schema\n%s\nprints differently when parsed again" % dump)
        r = d.ok("schcopy", s="s", to="q")
        if not r["end"]: raise Violation("schema\n%s\ndecoding leaves the stream at another place" % t)
        e = answers(d, "q", c)
        if list(map(strip, a)) != list(map(strip, e)): raise Violation("schema\n%s\nbehaves differently after encoding and decoding" % t)
        if d.ok("schdump", s="q")["text"] != dump: raise Violation("schema\n%s\nprints differently after encoding and decoding:\n%s" % (t, d.ok("schdump", s="q")["text"]))
        # malformed texts
        m = "".join(l for l in t.splitlines(True) if not l.startswith("#"))
        for pos, how in c["mut"]:
            p = pos % (len(m) + 1)
            x = m[:p] + m[p + 1:] if how == "del" else m[:p] if how == "cut" else m[:p] + m[p:p + 7] * 2 + m[p + 7:] if how == "dup" else m[:p] + how + m[p:]
            r = d.raw("schopen", s="m", text=x)
            y = "".join(l.split("#")[0] for l in x.splitlines(True)); depth = 0; worst = 0; bad = False
            for ch in y:
                if ch == "[": depth += 1; worst = max(worst, depth)
                elif ch == "]": depth -= 1; bad = bad or depth < 0
            bad = bad or depth != 0 or worst > 3
            labels.add("malformed" if not r["ok"] else "mutated-accepted")
            if r["ok"] and bad: raise Violation("malformed schema is accepted:\n%s" % x)
            if r["ok"]:
                dd = d.ok("schdump", s="m")["text"]; d.ok("seq", ops=[{"op": "scharch", "s": "m", "key": k} for k in c["keys"][:3]])
                r2 = d.raw("schopen", s="m2", text=dd)
        kinds = {p[2] for r in sch["rules"] for x in [r] + r["c"] + [i["c"][0] for i in r["c"]] for p in x["p"]}
        return {"labels": list(labels) + ["kind " + k for k in kinds], "nontrivial": acc > 0 and len(kinds) > 1, "sample": {"schema": t, "keys": c["keys"][:3]}}
if __name__ == "__main__": main(C15())
