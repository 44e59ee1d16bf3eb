// Round trips of every object that is written to disk or sent over the network.
#include "driver.h"
#include <sstream>
#include "eckit/io/Buffer.h"
#include "eckit/log/JSON.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/types/Types.h"
#include "fdb5/api/helpers/AxesIterator.h"
#include "fdb5/api/helpers/ControlIterator.h"
#include "fdb5/api/helpers/MoveIterator.h"
#include "fdb5/api/helpers/StatsIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"
#include "eckit/config/YAMLConfiguration.h"
#include "fdb5/config/Config.h"
#include "fdb5/database/IndexAxis.h"
#include "fdb5/database/WipeState.h"
#include "fdb5/daos/DaosFieldLocation.h"
#include "fdb5/remote/RemoteConfiguration.h"
#include "fdb5/remote/RemoteFieldLocation.h"
#include "fdb5/rules/Schema.h"
#include "fdb5/toc/TocFieldLocation.h"
#include "fdb5/toc/TocStats.h"
#define OP(name) static V op_##name(const V& c); static Reg reg_##name(#name, op_##name); static V op_##name(const V& c)
namespace drv {
using namespace fdb5;
static V strs(const std::vector<std::string>& v) { V a; a.t = V::A; for (auto& x : v) a.push(x); return a; }
static V obs(const Key& k) {
    V r; V a; a.t = V::A; for (auto& n : k.names()) { V p; p.t = V::A; p.push(n); p.push(k.get(n)); a.push(p); }
    r.set("ordered", a); r.set("keyv", keyV(k)); r.set("fp", k.valuesToString()); r.set("str", std::string(k)); r.set("size", (int)k.size()); r.set("empty", k.empty()); return r;
}
static V obs(const eckit::URI& u) { V r; r.set("raw", u.asRawString()); r.set("str", u.asString()); r.set("scheme", u.scheme()); r.set("name", u.name()); r.set("frag", u.fragment()); r.set("q", u.query()); r.set("host", u.host()); r.set("port", u.port()); return r; }
static V obs(const FieldLocation& l) { V r; r.set("remap", obs(l.remapKey())); r.set("uri", obs(l.uri())); r.set("off", (long long)l.offset()); r.set("len", (long long)l.length()); r.set("full", l.fullUri().asRawString()); std::ostringstream o; o << l; r.set("print", o.str()); return r; }
static V obs(const IndexAxis& x) {
    V r; for (auto& p : x.map()) { std::vector<std::string> v(p.second.begin(), p.second.end()); r.set(p.first.c_str(), strs(v)); }
    V q; q.set("map", r); std::ostringstream o; o << x; q.set("print", o.str()); return q;
}
static V obs(const ListElement& e) {
    V r, a; a.t = V::A; for (auto& k : e.keys()) a.push(obs(k)); r.set("keys", a); r.set("ts", (long long)e.timestamp()); r.set("has", e.hasLocation());
    if (e.hasLocation()) r.set("loc", obs(e.location()));
    std::ostringstream o; e.print(o, true, true, true, " "); r.set("print", o.str()); return r;
}
static V obs(const std::set<eckit::URI>& s) { V a; a.t = V::A; for (auto& u : s) a.push(obs(u)); return a; }
static V obs(const WipeElement& e) { V r; r.set("type", (int)e.type()); r.set("msg", e.msg()); r.set("uris", obs(e.uris())); std::ostringstream o; o << e; r.set("print", o.str()); return r; }
static V obs(const ControlIdentifiers& i) { V a; a.t = V::A; for (auto x : ControlIdentifierList) a.push(i.enabled(x)); V r; r.set("f", a); std::ostringstream o; o << i; r.set("print", o.str()); V n; n.t = V::A; for (auto x : i) n.push((int)x); r.set("it", n); return r; }
static V obs(const ControlElement& e) { V r; r.set("key", obs(e.key)); r.set("loc", obs(e.location)); r.set("ids", obs(e.controlIdentifiers)); return r; }
static V obs(const AxesElement& e) { V r; r.set("key", obs(e.key())); r.set("axes", obs(e.axes())); return r; }
static V obs(const StatsElement& e) {
    V r; std::ostringstream o; e.indexStatistics.report(o); e.dbStatistics.report(o); r.set("rep", o.str());
    auto& i = e.indexStatistics; r.set("n", (long long)i.fieldsCount()); r.set("d", (long long)i.duplicatesCount()); r.set("s", (long long)i.fieldsSize()); r.set("ds", (long long)i.duplicatesSize()); return r;
}
static V obs(const FDBToolRequest& t) {
    V r; r.set("all", t.all()); std::ostringstream o; o << t; r.set("print", o.str());
    V q; for (auto& p : t.request().params()) q.set(p.c_str(), strs(t.request().values(p))); r.set("req", q); r.set("verb", t.request().verb()); return r;
}
static V obs(const WipeState& w) { V r, m; for (auto& p : w.deleteMap()) m.set(std::to_string((int)p.first).c_str(), obs(p.second)); r.set("del", m); r.set("safe", obs(w.safeURIs())); r.set("n", (int)w.countURIsToDelete()); return r; }
static V obs(CatalogueWipeState& w) {
    V r = obs(static_cast<const WipeState&>(w)); r.set("key", obs(w.dbKey())); V a; a.t = V::A;
    for (auto& p : w.storeStates()) { V x = obs(static_cast<const WipeState&>(*p.second)); x.set("uri", obs(p.first)); x.set("suri", obs(p.second->storeURI())); x.set("sig", p.second->signature().isSigned()); x.set("missing", obs(p.second->missingURIs())); x.set("h", std::to_string(p.second->hash("secret"))); a.push(x); }
    r.set("stores", a); r.set("mask", (int)w.indexesToMask().size()); return r;
}
// damaged copies of an encoded object: each must decode or be refused (in a buffer of exactly its size)
static const V* mutations = nullptr;
template <class R> static V damaged(const std::string& orig, R rd) {
    int good = 0, bad = 0; std::set<std::string> what;
    for (auto& prog : mutations->a) {
        std::string x = orig;
        for (auto& m : prog.a) {
            int k = (int)m.a.at(0).num(); size_t len = x.size(); if (!len) break; size_t p = (size_t)m.a.at(1).num() % len; long long v = (long long)m.a.at(2).num();
            if (k == 0) x[p] = (char)v; else if (k == 1) x[p] ^= (char)(1 << (v & 7)); else if (k == 2) x.resize(p); else if (k == 3) x.erase(p, v & 15);
            else if (k == 4) x.insert(p, 1 + (v & 7), (char)(v >> 3)); else if (k == 5) { for (int i = 0; i < 4 && p + i < len; ++i) x[p + i] = (char)((unsigned long long)v >> (8 * (3 - i))); }
            else if (k == 6) x.insert(p, x.substr(v % len, 1 + (v & 31)));
        }
        std::unique_ptr<char[]> buf(new char[x.size() + (x.empty() ? 1 : 0)]); ::memcpy(buf.get(), x.data(), x.size());
        try { eckit::MemoryStream s(buf.get(), x.size()); rd(s); ++good; }
        catch (std::exception& e) { ++bad; what.insert(std::string(e.what()).substr(0, 60)); }
    }
    V r, w; w.t = V::A; for (auto& x : what) w.push(x); r.set("good", good); r.set("bad", bad); r.set("len", (long long)orig.size()); r.set("what", w); return r;
}
template <class W, class R> static V trip(V before, W w, R rd) {
    eckit::Buffer b(4 << 20); size_t n; { eckit::MemoryStream s(b); w(s); s << std::string("END!"); n = s.position(); }
    if (mutations && mutations->t == V::A) return damaged(std::string((const char*)b.data(), n), rd);
    eckit::MemoryStream s(b.data(), n); V after = rd(s); std::string e; s >> e;
    V r; r.set("before", before); r.set("after", after); r.set("end", e == "END!"); r.set("bytes", (long long)n); return r;
}
template <class T> static V trip1(const T& x) { return trip(obs(x), [&](eckit::Stream& s) { s << x; }, [&](eckit::Stream& s) { T y(s); return obs(y); }); }
static eckit::URI uriOf(const V& v) {
    eckit::URI u(v["scheme"].str(), eckit::PathName(v["path"].str()));
    if (v.has("host")) u = eckit::URI(v["scheme"].str(), v["host"].str(), (int)v["port"].num()), u.path(v["path"].str());
    if (v.has("frag")) u.fragment(v["frag"].str());
    for (auto& p : v["q"].o) u.query(p.first, p.second.str());
    return u;
}
static std::shared_ptr<const FieldLocation> locOf(const V& v) {
    if (v.has("remote")) { V w = v; w.o.erase(std::remove_if(w.o.begin(), w.o.end(), [](auto& p) { return p.first == "remote"; }), w.o.end()); return std::make_shared<remote::RemoteFieldLocation>(eckit::net::Endpoint(v["remote"].a.at(0).str(), (int)v["remote"].a.at(1).num()), *locOf(w)); }
    if (v["daos"].truth()) return std::make_shared<DaosFieldLocation>(uriOf(v["uri"]), eckit::Offset((long long)v["off"].num()), eckit::Length((long long)v["len"].num()), keyOf(v["remap"]));
    return std::make_shared<TocFieldLocation>(uriOf(v["uri"]), eckit::Offset((long long)v["off"].num()), eckit::Length((long long)v["len"].num()), keyOf(v["remap"])); }
static std::set<eckit::URI> urisOf(const V& v) { std::set<eckit::URI> s; for (auto& x : v.a) s.insert(uriOf(x)); return s; }
static void axisOf(const V& v, IndexAxis& x) { for (auto& p : v.o) { std::vector<std::string> l; for (auto& y : p.second.a) l.push_back(y.str()); x.insert(p.first, l); } x.sort(); }
static remote::RemoteConfiguration rconf(const V& v) { eckit::YAMLConfiguration c(v.str()); return remote::RemoteConfiguration(c); }
static V common(remote::RemoteConfiguration a, remote::RemoteConfiguration b) {
    V r; try { auto c = remote::RemoteConfiguration::common(a, b); r.set("single", c.singleConnection()); eckit::Buffer buf(65536); eckit::MemoryStream s(buf); s << c; r.set("bytes", hex(std::string((const char*)buf.data(), s.position()))); } catch (std::exception& e) { r.set("exc", std::string(e.what())); }
    return r;
}
OP(codec) {
    struct M { M(const V& c) { if (c.has("mutate")) mutations = &c["mutate"]; } ~M() { mutations = nullptr; } } m(c);
    const std::string k = c["kind"].str(); const V& v = c["v"];
    if (k == "key") { Key x = keyOf(v); return trip(obs(x), [&](eckit::Stream& s) { s << x; }, [&](eckit::Stream& s) { Key y(s); V o = obs(y); if (!(x == y)) o.set("neq", true); return o; }); }
    if (k == "schema") {
        std::istringstream in(v.str()); Schema x(in);
        auto o = [](const Schema& y) { std::ostringstream t; y.dump(t); V r; r.set("text", t.str()); return r; };
        return trip(o(x), [&](eckit::Stream& s) { s << x; }, [&](eckit::Stream& s) { std::unique_ptr<Schema> y(eckit::Reanimator<Schema>::reanimate(s)); if (!y) throw std::runtime_error("no schema"); V r = o(*y); y->matchDatabase(std::string("a:b:c")); Key q; q.set("class", "od"); q.set("a", "1"); y->expandDatabase(q.request()); return r; });
    }
    if (k == "keyparse") { Key x = keyOf(v); std::string t = x; V r; r.set("before", keyV(x)); r.set("after", keyV(Key::parse(t))); r.set("end", true); return r; }
    if (k == "axis") {
        IndexAxis x; axisOf(v, x); int ver = (int)c["version"].num();
        V r = trip(obs(x), [&](eckit::Stream& s) { x.encode(s, ver); }, [&](eckit::Stream& s) { IndexAxis y; y.decode(s, ver); V o = obs(y); if (!(x == y)) o.set("neq", true); return o; });
        return r;
    }
    if (k == "loc") {
        auto l = locOf(v); return trip(obs(*l), [&](eckit::Stream& s) { s << *l; }, [&](eckit::Stream& s) { std::unique_ptr<FieldLocation> y(eckit::Reanimator<FieldLocation>::reanimate(s)); if (!y) throw std::runtime_error("no location"); return obs(*y); });
    }
    if (k == "fulluri") {   // a location written as one URI
        auto l = locOf(v); auto u = l->fullUri(); V r, b = obs(*l), a; std::unique_ptr<FieldLocation> m(FieldLocationFactory::instance().build(u.scheme(), eckit::URI(u.asRawString())));
        for (auto* x : {&b, &a}) { const FieldLocation& y = x == &b ? *l : *m; V o; o.set("path", std::string(y.uri().path())); o.set("off", (long long)y.offset()); o.set("len", (long long)y.length()); o.set("remap", obs(y.remapKey())); o.set("host", y.uri().host()); o.set("port", y.uri().port()); *x = o; }
        r.set("before", b); r.set("after", a); r.set("end", true); return r;
    }
    if (k == "internal") {   // a remote location leads back to the server's own
        V w = v; w.o.erase(std::remove_if(w.o.begin(), w.o.end(), [](auto& p) { return p.first == "remote"; }), w.o.end()); auto in = locOf(w); auto out = locOf(v); auto u = remote::RemoteFieldLocation::internalURI(out->uri());
        V r; for (auto n : {"before", "after"}) { const eckit::URI& y = n[0] == 'b' ? in->uri() : u; V o; o.set("scheme", y.scheme()); o.set("host", y.host()); o.set("port", y.port()); o.set("name", y.name()); o.set("q", y.query()); r.set(n, o); }
        r.set("end", true); return r;
    }
    if (k == "filecopy") { FileCopy f(eckit::PathName(v["a"].str()), eckit::PathName(v["b"].str()), v["n"].str(), v["sync"].truth()); auto o = [](const FileCopy& x) { V r; std::ostringstream s; s << x; r.set("p", s.str()); return r; };
        return trip(o(f), [&](eckit::Stream& s) { s << f; }, [&](eckit::Stream& s) { FileCopy y(s); return o(y); }); }
    if (k == "rconf") {
        auto a = rconf(v["a"]), b = rconf(v["b"]); auto again = [](const remote::RemoteConfiguration& x) { eckit::Buffer buf(65536); eckit::MemoryStream s(buf); s << x; eckit::MemoryStream t(buf.data(), s.position()); return remote::RemoteConfiguration(t); };
        V r; r.set("before", common(a, b)); r.set("after", common(again(a), again(b))); r.set("end", true); return r;
    }
    if (k == "elem") {
        std::vector<Key> ks; for (auto& x : v["keys"].a) ks.push_back(keyOf(x));
        std::shared_ptr<const FieldLocation> l; if (v.has("loc")) l = locOf(v["loc"]);
        ListElement e = ks.size() == 1 ? ListElement(ks[0], (time_t)v["ts"].num()) : ks.size() == 2 ? ListElement(ks[0], ks[1], (time_t)v["ts"].num()) : ListElement(ks[0], ks[1], ks[2], l, (time_t)v["ts"].num());
        return trip1(e);
    }
    if (k == "wipeelem") { auto u = urisOf(v["uris"]); WipeElement e((WipeElementType)(int)v["type"].num(), v["msg"].str(), std::move(u)); V r = trip1(e); r.set("esize", (long long)e.encodeSize()); return r; }
    if (k == "ctlids") { ControlIdentifiers i; int n = 0; for (auto x : ControlIdentifierList) if (v.a.at(n++).truth()) i |= x; return trip1(i); }
    if (k == "ctlelem") { ControlElement e; e.key = keyOf(v["key"]); e.location = uriOf(v["uri"]); int n = 0; for (auto x : ControlIdentifierList) if (v["ids"].a.at(n++).truth()) e.controlIdentifiers |= x; return trip1(e); }
    if (k == "axeselem") { IndexAxis x; axisOf(v["axes"], x); AxesElement e(keyOf(v["key"]), std::move(x)); V r = trip1(e); r.set("esize", (long long)e.encodeSize()); return r; }
    if (k == "stats") {
        auto* d = new TocDbStats(); auto* i = new TocIndexStats(); auto& n = v.a; auto g = [&](int j) { return (unsigned long long)n.at(j).num(); };
        d->dbCount_ = g(0); d->tocRecordsCount_ = g(1); d->tocFileSize_ = g(2); d->schemaFileSize_ = g(3); d->ownedFilesSize_ = g(4); d->adoptedFilesSize_ = g(5); d->indexFilesSize_ = g(6); d->ownedFilesCount_ = g(7); d->adoptedFilesCount_ = g(8); d->indexFilesCount_ = g(9);
        i->fieldsCount_ = g(10); i->duplicatesCount_ = g(11); i->fieldsSize_ = g(12); i->duplicatesSize_ = g(13);
        StatsElement e; e.indexStatistics = IndexStats(i); e.dbStatistics = DbStats(d); return trip1(e);
    }
    if (k == "toolreq") { auto t = treqOf(v); return trip1(t); }
    if (k == "wipestate") {
        Config cfg(eckit::YAMLConfiguration(std::string("{}")));
        CatalogueWipeState w(keyOf(v["key"]), cfg); for (auto& p : v["del"].o) w.markForDeletion((WipeElementType)atoi(p.first.c_str()), urisOf(p.second));
        w.markAsSafe(urisOf(v["safe"])); for (auto& x : v["inc"].a) w.includeData(uriOf(x)); for (auto& x : v["exc"].a) w.excludeData(uriOf(x));
        if (v["sign"].truth()) w.signStoreStates("secret");
        return trip(obs(w), [&](eckit::Stream& s) { s << w; }, [&](eckit::Stream& s) { CatalogueWipeState y(s, cfg); return obs(y); });
    }
    throw std::runtime_error("driver: unknown codec " + k);
}
static V axv(const IndexAxis& ax) { V r; r.t = V::O; for (auto& kv : ax.map()) { V vs; vs.t = V::A; for (auto& x : kv.second) vs.push(x); r.set(kv.first, vs); } return r; }
OP(axisops) {   // axes in numbered slots
    std::vector<std::unique_ptr<IndexAxis>> a; for (int i = 0; i < 4; ++i) a.emplace_back(new IndexAxis()); V out; out.t = V::A;
    for (auto& o : c["ops"].a) {
        const std::string& w = o.a.at(0).str(); IndexAxis& x = *a.at((size_t)o.a.at(1).num()); V r;
        try {
            auto slot = [&](size_t k) -> IndexAxis& { return *a.at((size_t)o.a.at(k).num()); };
            if (w == "ins") { x.insert(keyOf(o.a.at(2))); x.sort(); }
            else if (w == "insl") { std::vector<std::string> l; for (auto& y : o.a.at(3).a) l.push_back(y.str()); x.insert(o.a.at(2).str(), l); x.sort(); }
            else if (w == "merge") { x.merge(slot(2)); x.sort(); }
            else if (w == "wipe") x.wipe();
            else if (w == "enc") { int ver = (int)o.a.at(3).num(); eckit::Buffer b(1 << 20); size_t n; { eckit::MemoryStream s(b); x.encode(s, ver); n = s.position(); } r.set("fits", n <= x.encodeSize(ver) + 64); eckit::MemoryStream s(b.data(), n); size_t j = (size_t)o.a.at(2).num(); a.at(j).reset(new IndexAxis(s, ver)); }
            else if (w == "move") { size_t j = (size_t)o.a.at(2).num(); auto n = std::make_unique<IndexAxis>(std::move(x)); a.at((size_t)o.a.at(1).num()).reset(new IndexAxis()); a.at(j) = std::move(n); }
            else if (w == "eq") { r.set("v", x == slot(2)); r.set("ne", x != slot(2)); }
            else if (w == "contains") { r.set("v", x.contains(keyOf(o.a.at(2)))); r.set("p", x.containsPartial(keyOf(o.a.at(2)))); }
            else if (w == "pm") r.set("v", x.partialMatch(reqOf(o.a.at(2))));
            else if (w == "has") { bool h = x.has(o.a.at(2).str()); r.set("v", h); if (h) { V vs; vs.t = V::A; for (auto& y : x.values(o.a.at(2).str())) vs.push(y); r.set("vals", vs); } }
            else throw std::runtime_error("driver: axis op " + w);
        } catch (std::exception& e) { r.set("exc", std::string(e.what())); }
        V all; all.t = V::A; for (auto& y : a) all.push(axv(*y)); r.set("all", all); out.push(r);
    }
    V r; r.set("out", out); return r;
}
}
