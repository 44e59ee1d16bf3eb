import sys, os, socket; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *
import random, vf
_port = [0]
def port():
    """A free port: below the range from which clients get theirs, disjoint between the workers."""
    for _ in range(200):
        _port[0] += 1; p = 10000 + (os.getpid() * 37 % 550) * 40 + _port[0] % 40
        with socket.socket() as s:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try: s.bind(("127.0.0.1", p)); s.listen(1); return p
            except OSError: pass
    raise HarnessError("no free port")
class Server:
    """A server process in a session of its own; what it prints goes to a file."""
    def __init__(self, cfgfile, p):
        self.args = cfgfile, p; self.log = cfgfile + ".log"; os.makedirs(cfgfile + ".home", exist_ok=True)
        with open(self.log, "wb") as f: self.p = subprocess.Popen([os.path.join(BUILD, "plain/bin/fdb-server")], env=base_env(FDB5_CONFIG_FILE=cfgfile, FDB_WIPE_SECRET="123", HOME=cfgfile + ".home", FDB_HOME=cfgfile + ".home"), stdin=subprocess.DEVNULL, stdout=f, stderr=f, cwd=scratch_base(), start_new_session=True)
        end = time.time() + 60
        while time.time() < end:
            if self.p.poll() is not None: raise HarnessError("server ended: " + self.tail())
            with socket.socket() as s:
                if s.connect_ex(("127.0.0.1", p)) == 0: return
            time.sleep(.01)
        raise HarnessError("server does not answer: " + self.tail())
    def tail(self): return open(self.log, "rb").read()[-3000:].decode("latin-1")
    def stop(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.p.wait(); end = time.time() + 20
        while time.time() < end:      # its children share the listening socket
            with socket.socket() as s:
                if s.connect_ex(("127.0.0.1", self.args[1])): return
            time.sleep(.01)
BIG = st.one_of(st.integers(1, 40), st.integers(1, 3000), st.sampled_from([4096, 65536, 300000, 1100000]))
@st.composite
def cases(draw):
    fi = draw(st.sampled_from([i for i, f in enumerate(FAMS) if f.name != "odd"]))      # locations travel as URIs: no @ ? # in values
    fam = FAMS[fi]; pool = draw(pools(fam, 2, 8)); ix = st.integers(0, len(pool) - 1); w = st.integers(0, 1)
    a = st.tuples(st.just("a"), w, ix, BIG); ixs = st.lists(ix, min_size=1, max_size=4)
    q = st.one_of(st.tuples(st.just("l"), sub_requests(fam), st.sampled_from(["dedup", "full", "dups"]), st.integers(1, 3)), *[st.tuples(st.just("q"), ixs)] * 3, st.tuples(st.just("i"), ixs), st.tuples(st.just("x"), sub_requests(fam), st.integers(1, 3)),
        st.tuples(st.just("s"), sub_requests(fam)), st.tuples(st.just("e"), w, ix, st.integers(0, 4)), st.tuples(st.just("p"), st.lists(st.lists(ix, min_size=1, max_size=3), min_size=2, max_size=4)), a)
    z = st.one_of(*[st.none()] * 3, st.tuples(st.just("r"), st.integers(1, 7)), st.tuples(st.just("w"), ix, st.integers(0, 1), st.booleans()), st.tuples(st.just("u"), ix, st.integers(0, 5)), st.tuples(st.just("c"), w)); ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops += draw(st.lists(a, min_size=1, max_size=5)) + draw(st.sampled_from([[]] * 4 + [[("a", 0, j % len(pool), 5 + j) for j in range(40)]])) + draw(st.sampled_from([[("f", 0), ("f", 1)]] * 4 + [[("f", 0)], []])) + draw(st.lists(q, min_size=1, max_size=5)); y = draw(z)
        if y: ops.append(y)
    return {"fam": fi, "pool": pool, "threaded": draw(st.booleans()), "stores": draw(st.sampled_from([1, 1, 2])), "proc": draw(st.booleans()), "hybrid": draw(st.sampled_from([False] * 3 + [True])), "ops": [list(o) for o in ops]}
class C24(Check):
    prop = "C24"; quick = 320; thorough = 8000; targets = ("vdriver", "fdb-server"); deterministic = False; other = "remotely"; after = "full"
    rule = ("cases: histories of two clients against servers on the loopback network (threaded or forking, one or two stores; in a quarter of the cases the catalogue is the client's and only the data are on servers) and, operation by operation, against a local archive: archives up to 1.1 MB, flushes, new sessions, listings of every depth and mode, inspections, retrievals, axes, statistics, wipes, "
            "failing operations and concurrent queries in one client; all results compared; non-trivial: two queries with results after archives")
    def strategy(self): return cases()
    def run(self, c):
        fam = FAMS[c["fam"]]; labels = {fam.name, "threaded" if c["threaded"] else "forking"}; results = 0; self.refused = False
        with Scratch() as sc:
            L = World(sc, fam, {}, {}); R = World(sc, fam, {}, {"FDB_WIPE_SECRET": "123"}); R.name = lambda h: "%sr%s" % (os.path.basename(sc.d), h)
            pc = port(); ps = [port() for _ in range(c["stores"])]; R.roots = [sc.mkdir("cat")] + [sc.mkdir("store%d" % i) for i in range(len(ps))]; sp = lambda r: [{"handler": "Default", "roots": [{"path": r}]}]; servers = []
            try:
                for i, p in enumerate(ps): servers.append(Server(sc.write("store%d.yaml" % i, json.dumps({"type": "store", "serverPort": p, "serverThreaded": c["threaded"], "spaces": sp(R.roots[1 + i])})), p))
                if c.get("hybrid"): R.cfg = config(R.schema, R.roots[:1], store="remote", stores=["localhost:%d" % p for p in ps], fieldLocationEndpoints=["localhost:%d" % p for p in ps]); labels.add("local catalogue")      # the catalogue in the client, the data on servers
                else: servers.append(Server(sc.write("cat.yaml", json.dumps({"type": "catalogue", "serverPort": pc, "serverThreaded": c["threaded"], "stores": [{"default": "localhost:%d" % p} for p in ps], "schema": R.schema, "spaces": sp(R.roots[0])})), pc))
                if not c.get("hybrid"): R.cfg = json.dumps({"type": "remote", "store": "remote", "engine": "remote", "host": "localhost", "port": pc})
                self.servers = servers
                for op in c["ops"]: results += self.op(c, fam, L, R, op, labels)
                L.closeall(); R.closeall(); results += self.op(c, fam, L, R, ["l", {}, "dedup", 3], labels)
                for s in servers:
                    if s.p.poll() is not None: raise Violation("a server ended: %s" % s.tail())
            finally:
                R.cleanup(); L.cleanup()
                for k in list(vf._pool):
                    if "FDB_WIPE_SECRET" in k[0]: vf._pool.pop(k).close()
                for s in servers: s.stop()
        return {"labels": sorted(labels), "nontrivial": results > 1}
    def both(self, L, R, what, do, post=lambda x: x, keep=None):
        """The same on both archives, by new handles or kept ones; returns the local reply, or None if both fail."""
        r = []
        for w in (L, R):
            d, h = w.reader(2) if keep is None or w not in keep else keep[w]
            if keep is not None: keep[w] = d, h
            try: r.append(do(w, d, h))
            finally:
                if keep is None: w.done(d, h)
        l, m = r
        if l["ok"] != m["ok"]: raise Violation("%s %s locally and %s %s: %s" % (what, "succeeds" if l["ok"] else "fails", "succeeds" if m["ok"] else "fails", self.other, show(m if l["ok"] else l, 800)))
        if not l["ok"]: return None
        a, b = post(l), post(m)
        if a != b: raise Violation("%s gives %s %s, %s locally" % (what, show(b, 700), self.other, show(a, 700)))
        return a
    def request(self, fam, L, pool, js):
        """A request for the fields of the given pool positions, or for visible ones (mostly)."""
        vis = sorted(L.m.visible()); return one_request([vis[j % len(vis)] if vis and js[0] % 4 != 3 else ident(key_of(fam, pool[j])) for j in js])
    def op(self, c, fam, L, R, op, labels):
        pool = c["pool"]; k = op[0]
        if k in "uw" and c.get("hybrid"): return 0      # stores wipe only what a catalogue server has signed
        if k in "uw" and self.refused: return 0      # the refused archive leaves an index file that a local wipe does not know
        if k in "afc":
            for w in (L, R): step(w, {"pool": pool, "proc": c["proc"]}, op)
            return 0
        if k == "r":      # the servers are restarted: what was archived stays, and the client reconnects
            L.closeall(); R.closeall()
            for i, s in enumerate(self.servers):
                if op[1] & 1 << i: s.stop(); self.servers[i] = Server(*s.args)
            labels.add("restart"); return 0
        if k == "e":      # what must fail
            key = dict(key_of(fam, pool[op[2]]))
            if op[3] == 0: key.pop(sorted(key)[0])
            elif op[3] == 1: key["nokeyword"] = "1"
            elif op[3] == 2: key[sorted(key)[-1]] = "/"
            else: key = {"nokeyword": "1"}
            r = []
            for w in (L, R):
                if op[1] not in w.w: return 0
                r.append(w.drv(w.w[op[1]]["slot"]).raw("archive", h=w.name("w%s" % op[1]), key=key, data={"id": 9, "len": 9}))
            if r[0]["ok"] != r[1]["ok"]: raise Violation("archiving %s %s locally and %s remotely: %s" % (key, *("succeeds" if x["ok"] else "fails" for x in r), r))
            if r[0]["ok"]: raise Skip      # it stored something the model does not know
            labels.add("refused archive"); self.refused = True; return 0
        if k == "l":
            _, req, mode, lev = op; q = {"req": req} if req else {"req": {}, "all": True}
            f = lambda x: sorted((json.dumps(e["keys"]), e["len"], json.dumps(e.get("data", e.get("readerr")))) if lev == 3 else (json.dumps(e["keys"]),) for e in x["elems"])
            a = self.both(L, R, "listing %s (%s, %d levels)" % (req, mode, lev), lambda w, d, h: d.raw("list", h=h, mode=mode, level=lev, read=lev == 3, **q), f); labels.add("list"); return bool(a)
        if k == "x":
            _, req, lev = op; q = {"req": req} if req else {"req": {}, "all": True}
            a = self.both(L, R, "axes of %s at level %d" % (req, lev), lambda w, d, h: d.raw("axes", h=h, level=lev, **q), lambda x: {n: sorted(v) for n, v in x["axes"].items()}); labels.add("axes"); return bool(a)
        if k == "s":
            q = {"req": op[1]} if op[1] else {"req": {}, "all": True}
            a = self.both(L, R, "statistics of %s" % op[1], lambda w, d, h: d.raw("stats", h=h, **q), lambda x: sorted((e["fields"], e["dups"], e["fsize"], e["dsize"]) for e in x["elems"])); labels.add("stats"); return bool(a)
        if k in "qi":
            req = self.request(fam, L, pool, op[1])
            if k == "i": a = self.both(L, R, "inspecting %s" % req, lambda w, d, h: d.raw("inspect", h=h, req=req), lambda x: sorted((json.dumps(e["keys"]), e["len"]) for e in x["elems"])); labels.add("inspect"); return bool(a)
            a = self.both(L, R, "retrieving %s" % req, lambda w, d, h: d.raw("retrieve", h=h, req=req), lambda x: (x["len"], x["md5"])); labels.add("retrieve" if a and a[0] else "retrieve nothing"); return bool(a and a[0])
        if k == "p":      # several queries at once in one client
            reqs = [self.request(fam, L, pool, js) for js in op[1]]; out = []
            for w in (L, R):
                hs = [w.reader(2) for _ in reqs]; d = hs[0][0]
                o = d.ok("parallel", branches=[[{"op": "retrieve", "h": h, "req": r}, {"op": "list", "h": h, "req": r, "mode": "dedup", "read": True}] for (_, h), r in zip(hs, reqs)])["out"]
                for _, h in hs: w.done(d, h)
                out.append([[(x["ok"], x.get("len"), x.get("md5"), sorted((json.dumps(e["keys"]), e["len"], json.dumps(e.get("data", e.get("readerr")))) for e in x.get("elems", []))) for x in b] for b in o])
            if out[0] != out[1]: raise Violation("concurrent queries of %s give %s %s, %s locally" % (reqs, show(out[1], 900), self.other, show(out[0], 900)))
            labels.add("concurrent"); return any(x[1] for b in out[0] for x in b)
        if k == "u":      # a wipe refused because of an unexpected file, repeated when the file is gone
            _, j, where = op; lv = levels_of(fam, pool[j])[0]; req = {a: [b] for a, b in lv.items()}; name = dbname(fam, pool[j]); L.closeall(); R.closeall()
            if any(x[1] and x[2] == 0 and x[3] not in lv for x in [(0, k_[2], k_[0], k_[1]) for k_ in fam.branches[pool[j][0]]]): return 0      # would select others as well
            if len({tuple(sorted(l[0].items())) for i, l in L.m.levels.items() if L.m.hist[i] and all(dict(l[0]).get(a) == b for a, b in lv.items())}) != 1: return 0
            files = []
            for w in (L, R):
                dirs = [os.path.join(r, name) for r in w.roots if os.path.isdir(os.path.join(r, name))]
                if not dirs: return 0
                f = os.path.join(dirs[where % len(dirs)] if w is R else dirs[0], "unexpected"); open(f, "w").write("x"); files.append(f)
            do = lambda w, d, h: d.raw("wipe", h=h, req=req, doit=True); keep = {} if where > 2 else None
            a = self.both(L, R, "wiping %s with an unexpected file" % req, do, keep=keep)
            if a is not None: raise Violation("wiping %s succeeds with an unexpected file" % req)
            for f in files: os.unlink(f)
            self.op(c, fam, L, R, ["l", {}, "full", 3], labels)
            if op[2] % 2: [step(w, {"pool": pool, "proc": c["proc"]}, o) for w in (L, R) for o in (["a", 0, j, 77], ["c", 0])]
            self.both(L, R, "wiping %s after an unexpected file was removed" % req, do, lambda x: 1, keep); labels.add("refused wipe")
            for w in (L, R):
                left = [os.path.join(r, name) for r in w.roots if os.path.exists(os.path.join(r, name))]
                if left: raise Violation("wiping %s after an unexpected file was removed leaves %s" % (req, {x: os.listdir(x) for x in left}))
                for i in list(w.m.hist):
                    if w.m.levels[i][0] == lv: del w.m.hist[i]
            return self.op(c, fam, L, R, ["l", {}, self.after, 3], labels)
        if k == "w":
            _, j, depth, doit = op; lv = levels_of(fam, pool[j]); req = {a: [b] for l in lv[:depth + 1] for a, b in l.items()}
            L.closeall(); R.closeall()
            a = self.both(L, R, "%s %s" % ("wiping" if doit else "a dry wipe of", req), lambda w, d, h: d.raw("wipe", h=h, req=req, doit=doit), lambda x: 1); labels.add("wipe" if doit else "dry wipe")
            if doit:
                have = {elem_ident(e) for e in listing(*L.reader(2))}
                for w in (L, R):
                    for i in list(w.m.hist):
                        if i not in have: del w.m.hist[i]
            return self.op(c, fam, L, R, ["l", {}, self.after, 3], labels)
if __name__ == "__main__": main(C24())
