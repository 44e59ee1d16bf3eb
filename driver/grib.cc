// GRIB messages as payloads, and what the message layer makes of them.
#include "driver.h"
#include <eccodes.h>
#include <sstream>
#include <stdexcept>
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/message/Message.h"
#include "eckit/message/Reader.h"
#include "fdb5/message/MessageArchiver.h"
#include "fdb5/message/MessageDecoder.h"
namespace drv {
fdb5::Config configOf(const V& c);
static void chk(int e, const std::string& w) { if (e) throw std::runtime_error("driver: eccodes: " + w + ": " + codes_get_error_message(e)); }
static void setKey(codes_handle* h, const std::string& k, const std::string& v) {
    size_t n = v.size();
    int e = codes_set_string(h, k.c_str(), v.c_str(), &n);
    if (e) { char* end; long l = strtol(v.c_str(), &end, 10); if (end && !*end && !v.empty()) e = codes_set_long(h, k.c_str(), l); }
    chk(e, k + "=" + v);
}
// {sample|hex, set:[[k,v]..], values:[first,n]} -> message
static std::string gribOf(const V& c) {
    codes_handle* h = nullptr; std::string src;
    if (c.has("hex")) { src = unhex(c["hex"].str()); h = codes_handle_new_from_message_copy(nullptr, src.data(), src.size()); }
    else h = codes_handle_new_from_samples(nullptr, c["sample"].str().c_str());
    if (!h) throw std::runtime_error("driver: no grib");
    std::unique_ptr<codes_handle, int (*)(codes_handle*)> g(h, codes_handle_delete);
    auto isValues = [](const V& p) { return p.a.at(0).str() == "values"; };
    for (auto& p : c["set"].a) if (!isValues(p)) setKey(h, p.a.at(0).str(), p.a.at(1).str());
    for (auto& p : c["set"].a) if (isValues(p)) { std::vector<double> v; for (auto& x : p.a.at(1).a) v.push_back((double)x.num()); chk(codes_set_double_array(h, "values", v.data(), v.size()), "values"); }
    const void* b; size_t n; chk(codes_get_message(h, &b, &n), "message");
    return std::string((const char*)b, n);
}
static V marsOf(const std::string& m) {
    codes_handle* h = codes_handle_new_from_message_copy(nullptr, m.data(), m.size());
    if (!h) throw std::runtime_error("driver: not a grib message");
    std::unique_ptr<codes_handle, int (*)(codes_handle*)> g(h, codes_handle_delete);
    codes_keys_iterator* it = codes_keys_iterator_new(h, 0, "mars"); V r; r.t = V::O;
    while (codes_keys_iterator_next(it)) { const char* n = codes_keys_iterator_get_name(it); char b[512]; size_t l = sizeof b; if (!codes_get_string(h, n, b, &l)) r.set(n, std::string(b)); }
    codes_keys_iterator_delete(it);
    return r;
}
static V valuesOf(const std::string& m) {
    codes_handle* h = codes_handle_new_from_message_copy(nullptr, m.data(), m.size());
    if (!h) throw std::runtime_error("driver: not a grib message");
    std::unique_ptr<codes_handle, int (*)(codes_handle*)> g(h, codes_handle_delete);
    size_t n = 0; chk(codes_get_size(h, "values", &n), "size"); std::vector<double> v(n); chk(codes_get_double_array(h, "values", v.data(), &n), "values");
    V r; r.t = V::A; for (auto x : v) { char b[40]; snprintf(b, sizeof b, "%.17g", x); r.push(std::string(b)); }
    return r;
}
#define OP(name) static V op_##name(const V& c); static Reg reg_##name(#name, op_##name); static V op_##name(const V& c)
static V getOf(const std::string& m, const V& keys) {   // coded values as strings; absent and missing keys are left out
    codes_handle* h = codes_handle_new_from_message_copy(nullptr, m.data(), m.size());
    if (!h) throw std::runtime_error("driver: not a grib message");
    std::unique_ptr<codes_handle, int (*)(codes_handle*)> g(h, codes_handle_delete); V r; r.t = V::O;
    for (auto& k : keys.a) { double x; char b[40]; if (codes_is_defined(h, k.str().c_str()) && !codes_get_double(h, k.str().c_str(), &x)) { snprintf(b, sizeof b, "%.17g", x); r.set(k.str(), std::string(b)); } }
    return r;
}
OP(grib) { std::string m = gribOf(c); V r; r.set("hex", hex(m)); r.set("mars", marsOf(m)); if (c["values"].truth()) r.set("values", valuesOf(m)); if (c.has("get")) r.set("got", getOf(m, c["get"])); return r; }
OP(gribs) { V r, a; a.t = V::A; for (auto& x : c["items"].a) { std::string m = gribOf(x); V e; e.set("hex", hex(m)); e.set("mars", marsOf(m)); a.push(e); } r.set("out", a); return r; }
OP(mars) { V r; r.set("mars", marsOf(dataOf(c["data"]))); return r; }
OP(msgkeys) {
    std::string d = dataOf(c["data"]); eckit::MemoryHandle h(d.data(), d.size()); eckit::message::Reader rd(h); eckit::message::Message m;
    V r, a; a.t = V::A; fdb5::MessageDecoder dec(c["dups"].truth());
    while ((m = rd.next())) { fdb5::Key k; dec.messageToKey(m, k); a.push(keyV(k)); }
    r.set("keys", a); return r;
}
struct Arch { std::unique_ptr<fdb5::MessageArchiver> a; };
static std::map<std::string, Arch>& archs() { static std::map<std::string, Arch> m; return m; }
OP(aopen) {
    auto a = std::make_unique<fdb5::MessageArchiver>(c.has("key") ? keyOf(c["key"]) : fdb5::Key(), c["complete"].truth(), c["verbose"].truth(), configOf(c));
    if (c.has("include") || c.has("exclude")) a->setFilters(c.has("include") ? c["include"].str() : "", c.has("exclude") ? c["exclude"].str() : "");
    if (c.has("modifiers")) a->setModifiers(keyOf(c["modifiers"]));
    archs()[c["h"].str()].a = std::move(a); return V(mj::Obj{});
}
OP(aarch) { std::string d = dataOf(c["data"]); eckit::MemoryHandle h(d.data(), d.size()); V r; r.set("n", (long long)archs().at(c["h"].str()).a->archive(h)); return r; }
OP(aflush) { archs().at(c["h"].str()).a->flush(); return V(mj::Obj{}); }
OP(aclose) { archs().erase(c["h"].str()); return V(mj::Obj{}); }
}
