// Programs of calls of the C interface. An object argument is a name; a name never created (or deleted) stands for null.
#include "driver.h"
#include <cstring>
#include <unistd.h>
#include "eckit/filesystem/LocalPathName.h"
#include "fdb5/api/fdb_c.h"
namespace drv {
namespace {
std::map<std::string, void*> objs;
std::vector<int> failures;
void onFailure(void* ctx, int code) { if (ctx == &failures) failures.push_back(code); else failures.push_back(-1); }
template <class T> T* obj(const V& c, const char* n) { if (!c.has(n) || c[n].isNull()) return nullptr; auto it = objs.find(c[n].str()); return it == objs.end() ? nullptr : static_cast<T*>(it->second); }
bool nul(const V& c, const char* n) { if (!c.has("nulls")) return false; for (auto& x : c["nulls"].a) if (x.str() == n) return true; return false; }
using H = fdb_handle_t; using K = fdb_key_t; using R = fdb_request_t; using S = fdb_split_key_t; using L = fdb_listiterator_t; using D = fdb_datareader_t;
struct Cs { std::string s; bool n; const char* p() const { return n ? nullptr : s.c_str(); } };
Cs cs(const V& c, const char* n) { return Cs{c.has(n) ? c[n].str() : std::string(), nul(c, n)}; }
V call(const V& c) {
    const std::string& f = c["fn"].str(); V r; int rc = -1; failures.clear();
    auto made = [&](void* p) { if (rc == 0 && p) objs[c["as"].str()] = p; };
    auto gone = [&](const char* n) { if (rc == 0 && c.has(n) && !c[n].isNull()) objs.erase(c[n].str()); };
    if (f == "initialise") rc = fdb_initialise();
    else if (f == "version") { const char* v = nullptr; rc = fdb_version(nul(c, "out") ? nullptr : &v); if (v) r.set("v", v); }
    else if (f == "vcs") { const char* v = nullptr; rc = fdb_vcs_version(nul(c, "out") ? nullptr : &v); if (v) r.set("v", v); }
    else if (f == "handler") rc = fdb_set_failure_handler(c["on"].truth() ? onFailure : nullptr, &failures);
    else if (f == "errstr") { const char* s = fdb_error_string((int)c["code"].num()); r.set("s", s ? V(s) : V()); rc = 0; }
    else if (f == "new_handle") { H* h = nullptr; rc = fdb_new_handle(nul(c, "out") ? nullptr : &h); made(h); }
    else if (f == "new_handle_yaml") { H* h = nullptr; auto a = cs(c, "sys"), b = cs(c, "user"); rc = fdb_new_handle_from_yaml(nul(c, "out") ? nullptr : &h, a.p(), b.p()); made(h); }
    else if (f == "delete_handle") { rc = fdb_delete_handle(obj<H>(c, "h")); gone("h"); }
    else if (f == "flush") rc = fdb_flush(obj<H>(c, "h"));
    else if (f == "archive") { std::string d = dataOf(c["data"]); rc = fdb_archive(obj<H>(c, "h"), obj<K>(c, "k"), nul(c, "data") ? nullptr : d.data(), d.size()); }
    else if (f == "archive_multiple") { std::string d = dataOf(c["data"]); rc = fdb_archive_multiple(obj<H>(c, "h"), obj<R>(c, "r"), nul(c, "data") ? nullptr : d.data(), d.size()); }
    else if (f == "list") { L* it = nullptr; rc = fdb_list(obj<H>(c, "h"), obj<R>(c, "r"), nul(c, "out") ? nullptr : &it, c["dups"].truth(), (int)c["depth"].num()); made(it); }
    else if (f == "retrieve") rc = fdb_retrieve(obj<H>(c, "h"), obj<R>(c, "r"), obj<D>(c, "d"));
    else if (f == "new_key") { K* k = nullptr; rc = fdb_new_key(nul(c, "out") ? nullptr : &k); made(k); }
    else if (f == "key_add") { auto a = cs(c, "n"), b = cs(c, "v"); rc = fdb_key_add(obj<K>(c, "k"), a.p(), b.p()); }
    else if (f == "delete_key") { rc = fdb_delete_key(obj<K>(c, "k")); gone("k"); }
    else if (f == "new_request") { R* k = nullptr; rc = fdb_new_request(nul(c, "out") ? nullptr : &k); made(k); }
    else if (f == "request_add") {
        auto a = cs(c, "n"); std::vector<const char*> v; for (auto& x : c["v"].a) v.push_back(x.isNull() ? nullptr : x.str().c_str());
        rc = fdb_request_add(obj<R>(c, "r"), a.p(), nul(c, "v") ? nullptr : v.data(), (int)v.size());
    }
    else if (f == "request_get") {
        auto a = cs(c, "n"); char** v = nullptr; size_t n = 0; rc = fdb_request_get(obj<R>(c, "r"), a.p(), nul(c, "v") ? nullptr : &v, nul(c, "count") ? nullptr : &n);
        if (rc == 0) { V l; l.t = V::A; for (size_t i = 0; i < n; ++i) { l.push(std::string(v[i])); delete[] v[i]; } delete[] v; r.set("v", l); }
    }
    else if (f == "request_expand") rc = fdb_expand_request(obj<R>(c, "r"));
    else if (f == "delete_request") { rc = fdb_delete_request(obj<R>(c, "r")); gone("r"); }
    else if (f == "new_splitkey") { S* k = nullptr; rc = fdb_new_splitkey(nul(c, "out") ? nullptr : &k); made(k); }
    else if (f == "splitkey_next") {
        const char *k = nullptr, *v = nullptr; size_t l = 99; rc = fdb_splitkey_next_metadata(obj<S>(c, "s"), nul(c, "k") ? nullptr : &k, nul(c, "v") ? nullptr : &v, nul(c, "level") ? nullptr : &l);
        if (rc == 0) { r.set("k", k); r.set("v", v); r.set("level", (int)l); }
    }
    else if (f == "delete_splitkey") { rc = fdb_delete_splitkey(obj<S>(c, "s")); gone("s"); }
    else if (f == "next") rc = fdb_listiterator_next(obj<L>(c, "l"));
    else if (f == "attrs") {
        const char* u = nullptr; size_t o = 0, n = 0; rc = fdb_listiterator_attrs(obj<L>(c, "l"), nul(c, "uri") ? nullptr : &u, nul(c, "off") ? nullptr : &o, nul(c, "len") ? nullptr : &n);
        if (rc == 0) { r.set("uri", u); r.set("off", (long long)o); r.set("len", (long long)n); }
    }
    else if (f == "splitkey") rc = fdb_listiterator_splitkey(obj<L>(c, "l"), obj<S>(c, "s"));
    else if (f == "elements") {      // all that is left: keys with their levels, and where the field is
        V es; es.t = V::A; S* s = nullptr; fdb_new_splitkey(&s);
        while ((rc = fdb_listiterator_next(obj<L>(c, "l"))) == 0) {
            V e, ks; ks.t = V::A; const char* u; size_t o, n; if (!c["noattrs"].truth()) e.set("attrs", fdb_listiterator_attrs(obj<L>(c, "l"), &u, &o, &n) == 0 ? V(mj::Arr{V(u), V((long long)o), V((long long)n)}) : V());
            int k = fdb_listiterator_splitkey(obj<L>(c, "l"), s); const char *kk, *kv; size_t l; size_t* lp = c["nolevel"].truth() ? nullptr : &l; l = 0;
            if (k == 0) while ((k = fdb_splitkey_next_metadata(s, &kk, &kv, lp)) == 0) ks.push(V(mj::Arr{V(kk), V(kv), V((long long)l)}));
            e.set("rc", k); e.set("keys", ks); if (c["again"].truth()) e.set("again", fdb_splitkey_next_metadata(s, &kk, &kv, &l)); es.push(e);
        }
        fdb_delete_splitkey(s); r.set("elems", es);
    }
    else if (f == "delete_listiterator") { rc = fdb_delete_listiterator(obj<L>(c, "l")); gone("l"); }
    else if (f == "new_datareader") { D* k = nullptr; rc = fdb_new_datareader(nul(c, "out") ? nullptr : &k); made(k); }
    else if (f == "open") { long n = -1; rc = fdb_datareader_open(obj<D>(c, "d"), nul(c, "size") ? nullptr : &n); r.set("n", n); }
    else if (f == "close") rc = fdb_datareader_close(obj<D>(c, "d"));
    else if (f == "tell") { long n = -1; rc = fdb_datareader_tell(obj<D>(c, "d"), nul(c, "pos") ? nullptr : &n); r.set("n", n); }
    else if (f == "size") { long n = -1; rc = fdb_datareader_size(obj<D>(c, "d"), nul(c, "size") ? nullptr : &n); r.set("n", n); }
    else if (f == "seek") rc = fdb_datareader_seek(obj<D>(c, "d"), c["n"].num());
    else if (f == "skip") rc = fdb_datareader_skip(obj<D>(c, "d"), c["n"].num());
    else if (f == "read") {
        long n = c["n"].num(), got = -1; std::string b(n + 16, '\x5a'); rc = fdb_datareader_read(obj<D>(c, "d"), nul(c, "buf") ? nullptr : b.data(), n, nul(c, "read") ? nullptr : &got);
        r.set("n", got); if (rc == 0 && got >= 0) { r.set("data", bytesV(b.substr(0, got))); r.set("clean", b.substr(n) == std::string(16, '\x5a')); }
    }
    else if (f == "delete_datareader") { rc = fdb_delete_datareader(obj<D>(c, "d")); gone("d"); }
    else if (f == "wipe" || f == "purge") {
        V es; es.t = V::A; bool w = f == "wipe"; fdb_wipe_iterator_t* wi = nullptr; fdb_purge_iterator_t* pi = nullptr;
        if (w) rc = fdb_wipe(obj<H>(c, "h"), obj<R>(c, "r"), c["doit"].truth(), c["porcelain"].truth(), c["unsafe"].truth(), nul(c, "out") ? nullptr : &wi);
        else rc = fdb_purge(obj<H>(c, "h"), obj<R>(c, "r"), c["doit"].truth(), c["porcelain"].truth(), nul(c, "out") ? nullptr : &pi);
        if (rc == 0) {
            for (;;) {
                const char* s = nullptr; fdb_wipe_element_t* we = nullptr; fdb_purge_element_t* pe = nullptr;
                int k = w ? fdb_wipe_iterator_next(wi, &we) : fdb_purge_iterator_next(pi, &pe);
                if (k == 0) { if ((w ? fdb_wipe_element_string(we, &s) : fdb_purge_element_string(pe, &s)) == 0) es.push(std::string(s)); }
                if (we) fdb_delete_wipe_element(we);
                if (pe) fdb_delete_purge_element(pe);
                if (k) { r.set("end", k); break; }
            }
            if (w) fdb_delete_wipe_iterator(wi); else fdb_delete_purge_iterator(pi);
        }
        r.set("elems", es);
    }
    else if (f == "wipe_next") { fdb_wipe_element_t* e = nullptr; rc = fdb_wipe_iterator_next(nullptr, &e); }
    else if (f == "purge_next") { fdb_purge_element_t* e = nullptr; rc = fdb_purge_iterator_next(nullptr, &e); }
    else if (f == "wipe_string") { const char* s; rc = fdb_wipe_element_string(nullptr, &s); }
    else if (f == "purge_string") { const char* s; rc = fdb_purge_element_string(nullptr, &s); }
    else if (f == "delete_wipe_element") rc = fdb_delete_wipe_element(nullptr);
    else if (f == "delete_purge_element") rc = fdb_delete_purge_element(nullptr);
    else throw std::runtime_error("driver: unknown function " + f);
    r.set("rc", rc); V fl; fl.t = V::A; for (int x : failures) fl.push(x); r.set("failures", fl);
    if (rc == 1 || rc == 2) r.set("err", fdb_error_string(rc));
    return r;
}
}  // namespace
#define OP(name) static V op_##name(const V& c); static Reg reg_##name(#name, op_##name); static V op_##name(const V& c)
OP(capi) { V r, a; a.t = V::A; for (auto& x : c["calls"].a) a.push(call(x)); r.set("out", a); return r; }
OP(cforget) { objs.clear(); return V(mj::Obj{}); }
}
