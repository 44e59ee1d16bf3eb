"""Client of the driver: D(T) starts a process, call ops as methods; .ok asserts success."""
import json, os, subprocess, sys
T = sys.argv[1]
class D:
    def __init__(self, **env):
        e = dict(os.environ, HOME=T + "/home", FDB_HOME=T + "/home", ECKIT_EXCEPTION_IS_SILENT="1", ECKIT_ASSERT_FAILED_IS_SILENT="1")
        e.update(env)
        self.p = subprocess.Popen([T + "/drv"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=T + "/w")
    def raw(self, op, **kw):
        kw["op"] = op; self.p.stdin.write(json.dumps(kw).encode() + b"\n"); self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l: fail("process died in " + op)
        return json.loads(l)
    def __getattr__(self, op):
        def f(**kw):
            r = self.raw(op, **kw)
            if not r.get("ok"): fail("%s failed: %s" % (op, r))
            return r
        return f
def fail(m): print("WRONG:", m, flush=True); os._exit(1)
def check(c, m):
    if not c: fail(m)
def write(name, text):
    p = T + "/w/" + name; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(text); return p
def mkdir(name): p = T + "/w/" + name; os.makedirs(p, exist_ok=True); return p
def cfg(schema, *roots, **kw):
    c = {"type": "local", "engine": "toc", "schema": schema, "spaces": [{"handler": "Default", "roots": [{"path": r} for r in roots]}]}
    c.update(kw); return json.dumps(c)
def data(r): return bytes.fromhex(r["hex"])
def ids(elems): return sorted(",".join("%s=%s" % tuple(p) for k in e["keys"] for p in k if p[1]) for e in elems)
