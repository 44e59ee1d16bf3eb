import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
WORD = st.text("abcdefghijklmnopqrstuvwxyz0123456789_-", min_size=1, max_size=9)
VAL = st.one_of(st.text("abcdefghijklmnopqrstuvwxyz0123456789.-_+/ ", max_size=10), st.sampled_from(["", "0", "x" * 255, "y" * 70000, "a:b", "é", "\x01", "0001"]))
PVAL = st.text("abcdefghijklmnopqrstuvwxyz0123456789.-_+", min_size=1, max_size=10)
@st.composite
def keys(draw, val=VAL, max_size=8):
    names = draw(st.lists(WORD, unique=True, max_size=max_size)); return [[n, draw(val)] for n in names]
PATH = st.lists(st.text("abcABC019._-:+", min_size=1, max_size=8).filter(lambda x: x.strip(".") != ""), min_size=1, max_size=4).map(lambda p: "/" + "/".join(p))
BIG = st.one_of(st.integers(0, 100), st.integers(0, 2 ** 33), st.sampled_from([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 40, 2 ** 52]))
@st.composite
def uri(draw, plain=False):
    r = {"scheme": draw(st.sampled_from(["file", "toc"])) if not plain else "file", "path": draw(PATH)}
    if not plain:
        if draw(st.integers(0, 3)) == 0: r["frag"] = draw(st.text("abc0123", min_size=1, max_size=6))
        if draw(st.integers(0, 3)) == 0: r["q"] = {k: draw(st.text("abc0123", min_size=1, max_size=6)) for k in draw(st.lists(st.sampled_from(["p", "q", "r"]), unique=True, max_size=3))}
    return r
@st.composite
def loc(draw, remote=None, daos=None, plain=False):
    r = {"uri": draw(uri(plain or bool(remote))), "off": draw(BIG), "len": draw(BIG), "remap": draw(keys(PVAL, 3)) if draw(st.booleans()) else []}
    if daos is None: daos = draw(st.integers(0, 4)) == 0
    if daos: r["daos"] = True; r["uri"] = {"scheme": "daos", "path": "/" + draw(WORD) + "/" + draw(WORD) + "/" + draw(st.text("0123456789abcdef", min_size=8, max_size=8))}
    if remote is None: remote = draw(st.integers(0, 4)) == 0
    if remote: r["remote"] = [draw(st.sampled_from(["localhost", "h1.example", "10.0.0.1"])), draw(st.integers(1, 65535))]
    return r
AX = st.dictionaries(WORD, st.lists(VAL, max_size=8), min_size=1, max_size=6)
REQ = st.dictionaries(WORD, st.lists(PVAL, min_size=1, max_size=5, unique=True), max_size=6)
U = st.lists(uri(True), max_size=5)
NUM = st.one_of(st.integers(0, 100), st.integers(0, 2 ** 53))
CNT = st.one_of(st.integers(0, 100), st.integers(0, 2 ** 32 - 1))     # counts travel as 32 bits in eckit's streams
RC = st.sampled_from(["{}", "{supportedConnections: [1]}", "{supportedConnections: [2]}", "{supportedConnections: [1, 2], preferSingleConnection: true}", "{preferSingleConnection: false}", "{preferSingleConnection: true}"])
FL = st.lists(st.booleans(), min_size=5, max_size=5)
KINDS = {
 "key": keys(), "keyparse": keys(PVAL), "axis": AX, "loc": loc(), "fulluri": loc(remote=False, plain=True), "internal": loc(remote=True),
 "elem": st.fixed_dictionaries({"keys": st.lists(keys(), min_size=1, max_size=3), "ts": st.integers(0, 2 ** 31 - 1)}).flatmap(lambda v: st.builds(lambda l: dict(v, loc=l) if len(v["keys"]) == 3 else v, loc())),
 "wipeelem": st.fixed_dictionaries({"type": st.integers(0, 9), "msg": VAL, "uris": U}), "ctlids": FL, "ctlelem": st.fixed_dictionaries({"key": keys(), "uri": uri(), "ids": FL}),
 "axeselem": st.fixed_dictionaries({"key": keys(), "axes": AX}), "stats": st.tuples(*[NUM if j in (2, 3, 4, 5, 6, 12, 13) else CNT for j in range(14)]).map(list),
 "toolreq": st.fixed_dictionaries({"req": REQ, "all": st.booleans()}), "filecopy": st.fixed_dictionaries({"a": PATH, "b": PATH, "n": WORD, "sync": st.booleans()}), "rconf": st.fixed_dictionaries({"a": RC, "b": RC}),
 "wipestate": st.fixed_dictionaries({"key": keys(PVAL), "del": st.dictionaries(st.integers(1, 9).map(str), U, max_size=4), "safe": U, "inc": U, "exc": U, "sign": st.just(True)}),
}
class C17(Check):
    prop = "C17"; quick = 16000; thorough = 1000000; targets = ("vcodec",)
    rule = ("cases: one value object of a random kind (identifier, axes in formats 1-3, field locations of three backends, list/wipe/control/axes/statistics elements, requests, wipe plans, move steps, protocol configuration) "
            "encoded, decoded, and compared in everything its interface shows, followed by a marker that must decode in place; non-trivial: the encoded object is longer than 40 bytes or is a text round trip")
    def strategy(self): return st.sampled_from(sorted(KINDS)).flatmap(lambda k: st.tuples(st.just(k), KINDS[k], st.integers(1, 3))).map(list)
    def run(self, c):
        k, v, ver = c
        r = driver(exe="vcodec").raw("codec", kind=k, v=v, version=ver)
        if not r.get("ok"):
            if r.get("err") == "driver" or str(r.get("what")).startswith("driver:"): raise HarnessError(str(r)[:1000])
            raise Violation("%s %s: encoding or decoding fails: %s %s" % (k, show(v), r.get("err"), r.get("what")), sig="elem-no-field-keyword" if k == "elem" and "loc" in v and not v["keys"][2] else None)
        if r["before"] != r["after"]:
            d = {x: (r["before"].get(x), r["after"].get(x)) for x in set(r["before"]) | set(r["after"]) if r["before"].get(x) != r["after"].get(x)} if isinstance(r["before"], dict) else (r["before"], r["after"])
            raise Violation("%s %s: before and after the round trip differ: %s" % (k, show(v), show(d, 1500)))
        if not r["end"]: raise Violation("%s %s: the decoder does not consume what the encoder wrote" % (k, show(v)))
        b = r["before"]
        if k == "key" and b["ordered"] != [[n, x.lower()] for n, x in v] and "é" not in str(v): raise Violation("key built from %s shows %s" % (show(v), show(b["ordered"])))
        if k == "axis" and {x: sorted(set(y)) for x, y in b["map"].items()} != {x: sorted(set(y)) for x, y in v.items()}: raise Violation("axes built from %s show %s" % (show(v), show(b["map"])))
        if k == "axis" and any(y != sorted(set(y)) for y in b["map"].values()): raise Violation("axes are not sorted sets: %s" % show(b["map"]))
        if k == "loc" and "remote" not in v and (b["off"], b["len"], b["remap"]["ordered"]) != (v["off"], v["len"], v["remap"]): raise Violation("location built from %s shows %s" % (show(v), show(b)))
        if "esize" in r and r["bytes"] - 9 > r["esize"]: raise Violation("%s %s: %d bytes are written, %d announced" % (k, show(v), r["bytes"] - 9, r["esize"]))
        return {"labels": [k], "nontrivial": r.get("bytes", 99) > 49}
if __name__ == "__main__": main(C17())
