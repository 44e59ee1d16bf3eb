import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from world import *

def check_get(d, h, w, i, single=True):
    """One identifier, fully specified."""
    vis = w.m.visible(); req = {k: [v] for k, v in i}
    r = d.ok("retrieve", h=h, req=req)
    if i in vis:
        if not same(r, vis[i].data()): raise Violation("retrieve %s: got %d bytes (%s), last flushed were %d bytes of archive #%d" % (i, r["len"], bytes.fromhex(r.get("hex", ""))[:24], vis[i].n, vis[i].pid))
    elif matching_retrieve(w, req):       # fields lacking an optional keyword the index knows no such value of
        j = matching_retrieve(w, req)
        if not segments(bytes.fromhex(r["hex"]), [vis[x].data() for x in j]): raise Violation("retrieve %s: %d bytes, expected those of %s" % (i, r["len"], j))
    elif r["len"]: raise Violation("retrieve %s returned %d bytes (%s) though it was never archived and flushed" % (i, r["len"], bytes.fromhex(r.get("hex", ""))[:24]))
def check_multi(d, h, w, ids):
    req = one_request(ids)
    want = matching_retrieve(w, req)
    r = d.ok("retrieve", h=h, req=req); vis = w.m.visible()
    parts = [vis[i].data() for i in want]
    blob = rbytes(r)
    if blob is None:
        if r["len"] != sum(map(len, parts)): raise Violation("retrieve %s: %d bytes, expected %d" % (req, r["len"], sum(map(len, parts))))
    elif not segments(blob, parts):
        raise Violation("retrieve %s is not the concatenation of the %d matching fields: %d bytes, expected %d" % (req, len(parts), len(blob), sum(map(len, parts))))
    return len(want)
class C01(Check):
    prop = "C01"; quick = 5600; thorough = 120000
    rule = ("cases: random histories of archive/flush/close by up to two writers (in one or two processes) over a small identifier space in one of four "
            "schema families and five option sets, retrieved back singly and multi-valued by fresh readers; non-trivial: an identifier was overwritten after a flush or two or more indexes/databases were written")
    def strategy(self): return histories()
    def run(self, c):
        fam = FAMS[c["fam"]]; on, user, env = OPTS[c["opt"]]; labels = [fam.name, on]
        with Scratch() as sc:
            w = World(sc, fam, user, env); over = False; multi = 0
            try:
                for op in c["ops"]:
                    if op[0] == "a":
                        wr = op[1]
                        if w.subtoc:      # concurrent sub-TOC writers have no defined masking order: one writer at a time
                            for o in list(w.w):
                                if o != wr: w.close(o)
                        kx = c["pool"][op[2]]; i = ident(key_of(fam, kx)); over = over or bool(w.m.hist.get(i))
                        w.archive(wr, kx, op[3], slot=2 * wr if c["proc"] else 0)
                    elif op[0] == "f": w.flush(op[1])
                    elif op[0] == "c": w.close(op[1])
                    elif op[0] == "q":
                        d, h = w.reader(); check_get(d, h, w, ident(key_of(fam, c["pool"][op[1]]))); w.done(d, h)
                    elif op[0] == "m":
                        d, h = w.reader(); multi += check_multi(d, h, w, [ident(key_of(fam, c["pool"][x])) for x in op[1]]); w.done(d, h)
                for x in list(w.w): w.flush(x)
                d, h = w.reader()
                for i in sorted(w.m.levels): check_get(d, h, w, i)
                for kx in c["never"]: check_get(d, h, w, ident(key_of(fam, kx)))
                w.done(d, h)
                w.closeall()
                d, h = w.reader()
                ids = sorted(w.m.levels)
                for i in ids: check_get(d, h, w, i)
                if ids: multi += check_multi(d, h, w, ids)
                # the default listing leads to the same bytes
                r = d.ok("list", h=h, req={}, all=True, mode="dedup", read=True); vis = w.m.visible()
                got = {elem_ident(e): e for e in r["elems"]}
                for i in vis:
                    if i not in got: raise Violation("flushed %s is not listed" % (i,))
                    if "data" not in got[i] or not same(got[i]["data"], vis[i].data()): raise Violation("listed location of %s does not hold its bytes: %s" % (i, got[i].get("readerr", got[i]["len"])))
                w.done(d, h)
            finally: w.cleanup()
            dbs = len({tuple(sorted(lv[0].items())) for lv in w.m.levels.values()}); idx = len({str(lv[:2]) for lv in w.m.levels.values()})
        if over: labels.append("overwrite")
        if dbs > 1: labels.append("multi-db")
        if multi: labels.append("multi-retrieve")
        return {"labels": labels, "nontrivial": over or idx > 1}
if __name__ == "__main__": main(C01())
