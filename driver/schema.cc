// Schema and value-type operations.
#include "driver.h"
#include <sstream>
#include "eckit/io/Buffer.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/types/Date.h"
#include "fdb5/database/WriteVisitor.h"
#include "fdb5/rules/Rule.h"
#include "fdb5/rules/Schema.h"
#include "fdb5/types/Type.h"
#include "fdb5/types/TypesFactory.h"
#include "fdb5/types/TypesRegistry.h"
#define OP(name) static V op_##name(const V& c); static Reg reg_##name(#name, op_##name); static V op_##name(const V& c)
namespace drv {
using namespace fdb5;
static std::map<std::string, std::unique_ptr<Schema>> schemas;
static Schema& schemaOf(const V& c) {
    auto i = schemas.find(c["s"].str());
    if (i == schemas.end()) throw std::runtime_error("driver: no schema");
    return *i->second;
}
namespace {
struct Prev { std::vector<Key> dummy; };
struct Rec : Prev, WriteVisitor {
    const Schema& s; Key db, idx, dat; size_t n = 0; int hits = 0;
    Rec(const Schema& sc) : WriteVisitor(dummy), s(sc) {}
    bool selectDatabase(const Key& k, const Key&) override { db = k; return true; }
    bool selectIndex(const Key& k) override { idx = k; return false; }
    bool createIndex(const Key& k, size_t m) override { idx = k; n = m; return true; }
    bool selectDatum(const Key& k, const Key&) override { dat = k; ++hits; return true; }
    const Schema& databaseSchema() const override { return s; }
    void print(std::ostream& o) const override { o << "rec"; }
};
}
static V ordered(const Key& k) { V a; a.t = V::A; for (auto& n : k.names()) { V p; p.t = V::A; p.push(n); p.push(k.get(n)); a.push(p); } return a; }
OP(schopen) { std::istringstream in(c["text"].str()); schemas[c["s"].str()] = std::make_unique<Schema>(in); V r; r.set("empty", schemaOf(c).empty()); return r; }
OP(schload) { schemas[c["s"].str()] = std::make_unique<Schema>(eckit::PathName(c["path"].str())); return V(mj::Obj{}); }
OP(schclose) { schemas.erase(c["s"].str()); return V(mj::Obj{}); }
OP(schdump) { std::ostringstream o; schemaOf(c).dump(o); V r; r.set("text", o.str()); return r; }
OP(schcopy) {  // through a stream
    eckit::Buffer b(1 << 20); size_t n; { eckit::MemoryStream s(b); s << schemaOf(c); s << std::string("END"); n = s.position(); }
    eckit::MemoryStream s(b.data(), n);
    std::unique_ptr<Schema> q(eckit::Reanimator<Schema>::reanimate(s)); std::string e; s >> e;
    V r; r.set("end", e == "END"); r.set("path", q->path()); schemas[c["to"].str()] = std::move(q); return r;
}
OP(scharch) {
    auto& s = schemaOf(c); Rec v(s); Key k = keyOf(c["key"]); s.expand(k, v); V r; r.set("hits", v.hits);
    if (!v.rule()) { r.set("found", false); return r; }
    r.set("found", true); r.set("db", ordered(v.db)); r.set("idx", ordered(v.idx)); r.set("datum", ordered(v.dat)); r.set("n", (int)v.n);
    std::string fp = v.dat.valuesToString(); r.set("fp", fp); r.set("dbname", v.db.valuesToString());
    try { v.rule()->check(k); r.set("check", true); } catch (std::exception& e) { r.set("check", false); }
    try { r.set("back", ordered(s.matchingRule(v.db, v.idx).makeKey(fp))); } catch (std::exception& e) { r.set("backerr", std::string(e.what())); }
    return r;
}
OP(schname) { auto k = schemaOf(c).matchDatabase(c["name"].str()); V r; r.set("found", (bool)k); if (k) r.set("key", ordered(*k)); return r; }
OP(schexpand) { V r, a; a.t = V::A; for (auto& k : schemaOf(c).expandDatabase(reqOf(c["req"]))) a.push(ordered(k)); r.set("keys", a); return r; }
OP(schmatch) { std::map<Key, const Rule*> m; schemaOf(c).matchDatabase(reqOf(c["req"]), m, c["missing"].str().c_str()); V r, a; a.t = V::A; for (auto& p : m) a.push(ordered(p.first)); r.set("keys", a); return r; }
static const Type& typeOf(const V& c) {
    static std::map<std::string, std::unique_ptr<Type>> ts; auto& t = ts[c["type"].str() + ":" + c["kw"].str()];
    if (!t) t.reset(TypesFactory::build(c["type"].str(), c["kw"].str())); return *t;
}
static V each(const V& c, std::function<std::string(const std::string&)> f) {
    V a; a.t = V::A;
    for (auto& x : c["v"].a) { V o; try { o.set("v", f(x.str())); } catch (std::exception& e) { o.set("err", std::string(e.what())); } a.push(o); }
    V r; r.set("out", a); return r;
}
OP(typekey) { auto& t = typeOf(c); return each(c, [&](const std::string& s) { return t.toKey(s); }); }
OP(typetidy) { auto& t = typeOf(c); return each(c, [&](const std::string& s) { return t.tidy(s); }); }
OP(typevalues) { auto& t = typeOf(c); return each(c, [&](const std::string& s) { metkit::mars::MarsRequest q("retrieve"); q.values(c["kw"].str(), {s}); eckit::StringList l; t.getValues(q, c["kw"].str(), l, nullptr); std::string r; for (auto& x : l) r += x + "|"; return r; }); }
OP(typematch) { auto& t = typeOf(c); V r; r.set("v", t.match(c["kw"].str(), c["a"].str(), c["b"].str())); return r; }
OP(typecanon) { V r; r.set("alias", typeOf(c).alias()); return r; }
}
