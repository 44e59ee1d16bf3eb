// Verification driver: executes JSON operations against libfdb5, one per line, one reply per line.
#include "driver.h"
#include <cxxabi.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstring>
#include <fstream>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/AutoCloser.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/log/JSON.h"
#include "eckit/runtime/Main.h"
#include "eckit/filesystem/LocalPathName.h"
#define private public
#include "eckit/config/ResourceMgr.h"
#undef private
#include "eckit/utils/MD5.h"
#include "fdb5/LibFdb5.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/config/Config.h"
#include "fdb5/database/IndexAxis.h"
#if defined(__SANITIZE_ADDRESS__)
// a request for much memory fails as it would without the sanitizer: by an exception
#include <new>
#include <cstdlib>
void* operator new(std::size_t n) { if (n > (std::size_t(1) << 28)) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif

// The clock the code under test sees: a command may set it ("now").
namespace drv { static time_t fakeNow = 0; }
extern "C" __attribute__((visibility("default"))) time_t time(time_t* t) noexcept {
    time_t r = drv::fakeNow;
    if (!r) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    if (t) *t = r;
    return r;
}

namespace drv {
std::map<std::string, Op>& ops() { static std::map<std::string, Op> m; return m; }
static std::map<std::string, std::unique_ptr<fdb5::FDB>> fdbs;
static std::map<std::string, std::unique_ptr<eckit::DataHandle>> handles;
static std::map<std::string, std::shared_ptr<std::vector<V>>> cblogs;
static std::mutex mapMutex;

std::string hex(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string r; r.reserve(s.size() * 2);
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
std::string unhex(const std::string& s) {
    std::string r; r.reserve(s.size() / 2);
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(v(s[i]) * 16 + v(s[i + 1]));
    return r;
}
std::string fillData(unsigned long long id, size_t len) {
    std::string r(len, 0);
    for (size_t i = 0; i < len; ++i) r[i] = (char)((id * 131 + i * (2 * id + 1) + (i >> 8) * 7 + (i >> 16)) & 0xff);
    char b[32]; int n = snprintf(b, sizeof b, "<%llx:%zx>", id, len);
    for (int i = 0; i < n && (size_t)i < len; ++i) r[i] = b[i];
    return r;
}
std::string dataOf(const V& v) {
    if (v.has("hex")) return unhex(v["hex"].str());
    if (v.has("file")) { std::ifstream f(v["file"].str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
    return fillData((unsigned long long)v["id"].num(), (size_t)v["len"].num());
}
fdb5::FDB& fdbOf(const V& c) {
    std::lock_guard<std::mutex> l(mapMutex);
    auto it = fdbs.find(c["h"].str());
    if (it == fdbs.end()) throw std::runtime_error("driver: no fdb " + c["h"].s);
    return *it->second;
}
fdb5::Key keyOf(const V& v) {
    fdb5::Key k;
    if (v.t == V::A) for (auto& p : v.a) k.set(p.a.at(0).str(), p.a.at(1).str());
    else for (auto& p : v.o) k.set(p.first, p.second.str());
    return k;
}
metkit::mars::MarsRequest reqOf(const V& v, const std::string& verb) {
    metkit::mars::MarsRequest r(verb);
    auto one = [&](const std::string& k, const V& x) {
        std::vector<std::string> vals;
        if (x.t == V::Str) vals.push_back(x.s); else for (auto& y : x.a) vals.push_back(y.str());
        r.values(k, vals);
    };
    if (v.t == V::A) for (auto& p : v.a) one(p.a.at(0).str(), p.a.at(1));
    else for (auto& p : v.o) one(p.first, p.second);
    return r;
}
fdb5::FDBToolRequest treqOf(const V& c) {
    std::vector<std::string> mk;
    for (auto& x : c["minkeys"].a) mk.push_back(x.str());
    if (c.has("reqstr")) {
        auto rs = fdb5::FDBToolRequest::requestsFromString(c["reqstr"].str(), mk, c["raw"].truth());
        if (rs.size() != 1) throw std::runtime_error("driver: expected one request");
        return rs[0];
    }
    return fdb5::FDBToolRequest(reqOf(c["req"]), c["all"].truth(), mk);
}
V keyV(const fdb5::BaseKey& k) {
    V r; r.t = V::A;
    for (auto& n : k.names()) { V p; p.push(n); p.push(k.find(n).second ? k.get(n) : std::string("<missing>")); r.push(p); }
    // keep both views: names() order and size()
    if (k.names().size() != k.size()) { V p; p.push("<size>"); p.push(std::to_string(k.size())); r.push(p); }
    return r;
}
V elemV(const fdb5::ListElement& e) {
    V r; V ks; ks.t = V::A;
    for (auto& k : e.keys()) ks.push(keyV(k));
    r.set("keys", ks);
    r.set("ts", (long long)e.timestamp());
    if (e.hasLocation()) {
        r.set("uri", e.location().uri().asRawString());
        r.set("path", std::string(e.location().uri().path()));
        r.set("off", (long long)e.location().offset());
        r.set("len", (long long)e.location().length());
        r.set("full", e.location().fullUri().asRawString());
    }
    return r;
}
V bytesV(const std::string& data) {
    V r; r.set("len", data.size());
    r.set("md5", (std::string)eckit::MD5(data.data(), data.size()));
    if (data.size() <= 300000) r.set("hex", hex(data));
    return r;
}
std::string slurp(eckit::DataHandle& h, size_t bufsize) {
    std::string out; std::vector<char> buf(bufsize);
    h.openForRead();
    eckit::AutoClose c(h);
    for (;;) { long n = h.read(buf.data(), (long)buf.size()); if (n <= 0) { if (n < 0) throw std::runtime_error("driver: read returned " + std::to_string(n)); break; } out.append(buf.data(), n); }
    return out;
}
static std::string demangle(const char* n) {
    int st; char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = d ? d : n; free(d); return r;
}
V runOp(const V& c) {
    V r;
    try {
        auto it = ops().find(c["op"].str());
        if (it == ops().end()) { r.set("ok", false).set("err", "driver").set("what", "unknown op " + c["op"].s); return r; }
        r = it->second(c);
        V out; out.set("ok", true);
        for (auto& p : r.o) out.set(p.first, p.second);
        return out;
    }
    catch (const std::exception& e) { V o; o.set("ok", false).set("err", demangle(typeid(e).name())).set("what", std::string(e.what())); return o; }
    catch (...) { V o; o.set("ok", false).set("err", "unknown").set("what", ""); return o; }
}
fdb5::Config configOf(const V& c) {
    eckit::YAMLConfiguration user(c.has("user") ? c["user"].str() : std::string("{}"));
    if (c.has("config")) { eckit::YAMLConfiguration cfg(c["config"].str()); return fdb5::Config(cfg, user); }
    return fdb5::Config(eckit::LocalConfiguration(), user).expandConfig();
}
using fdb5::ControlIdentifier;
static fdb5::ControlIdentifiers cids(const V& v) {
    fdb5::ControlIdentifiers r;
    for (auto& x : v.a) {
        const std::string& s = x.str();
        if (s == "list") r |= ControlIdentifier::List;
        else if (s == "retrieve") r |= ControlIdentifier::Retrieve;
        else if (s == "archive") r |= ControlIdentifier::Archive;
        else if (s == "wipe") r |= ControlIdentifier::Wipe;
        else if (s == "uniqueroot") r |= ControlIdentifier::UniqueRoot;
        else throw std::runtime_error("driver: identifier " + s);
    }
    return r;
}
static V cidsV(const fdb5::ControlIdentifiers& c) {
    V r; r.t = V::A;
    if (c.enabled(ControlIdentifier::List)) r.push("list");
    if (c.enabled(ControlIdentifier::Retrieve)) r.push("retrieve");
    if (c.enabled(ControlIdentifier::Archive)) r.push("archive");
    if (c.enabled(ControlIdentifier::Wipe)) r.push("wipe");
    if (c.enabled(ControlIdentifier::UniqueRoot)) r.push("uniqueroot");
    return r;
}
static fdb5::ListMode lmode(const V& c) {
    std::string m = c.has("mode") ? c["mode"].str() : "full";
    return m == "dedup" ? fdb5::ListMode::Deduplicate : m == "dups" ? fdb5::ListMode::OnlyDuplicates : fdb5::ListMode::Full;
}
static int level(const V& c) { return c.has("level") ? (int)c["level"].num() : 3; }

static V opHandle(eckit::DataHandle& h, const V& seq) {
    V out; out.t = V::A;
    for (auto& s : seq.a) {
        const std::string& w = s.a.at(0).str();
        V r;
        try {
            if (w == "open") r.set("v", (long long)h.openForRead());
            else if (w == "close") h.close();
            else if (w == "read") { long n = (long)s.a.at(1).num(); std::vector<char> b(n + 1); long k = h.read(b.data(), n); r.set("v", k); if (k > 0) { std::string d(b.data(), std::min(k, n)); r.set("md5", (std::string)eckit::MD5(d.data(), d.size())); if (k <= 4096) r.set("hex", hex(d)); } }
            else if (w == "seek") r.set("v", (long long)h.seek(eckit::Offset(s.a.at(1).num())));
            else if (w == "skip") h.skip(eckit::Length(s.a.at(1).num()));
            else if (w == "rewind") h.rewind();
            else if (w == "position") r.set("v", (long long)h.position());
            else if (w == "size") r.set("v", (long long)h.size());
            else if (w == "estimate") r.set("v", (long long)h.estimate());
            else if (w == "canSeek") r.set("v", h.canSeek());
            else if (w == "restart") h.restartReadFrom(eckit::Offset(s.a.at(1).num()));
            else throw std::runtime_error("driver: handle op " + w);
        }
        catch (std::exception& e) { r.set("exc", demangle(typeid(e).name())); r.set("what", std::string(e.what())); }
        out.push(r);
    }
    return out;
}

static eckit::DataHandle* makeHandle(const V& c) {
    auto& f = fdbOf(c);
    std::string k = c["kind"].str();
    bool sorted = c["sorted"].truth();
    if (k == "retrieve") return f.retrieve(reqOf(c["req"]));
    if (k == "uris") { std::vector<eckit::URI> u; for (auto& x : c["uris"].a) u.emplace_back(x.str()); return f.read(u, sorted); }
    if (k == "uri") return f.read(eckit::URI(c["uri"].str()));
    if (k == "list") { auto it = f.list(treqOf(c), lmode(c)); return f.read(it, sorted); }
    if (k == "inspect") { auto it = f.inspect(reqOf(c["req"])); return f.read(it, sorted); }
    throw std::runtime_error("driver: handle kind " + k);
}

#define OP(name) static V op_##name(const V& c); static Reg reg_##name(#name, op_##name); static V op_##name(const V& c)
OP(ping) { V r; r.set("pid", (long long)getpid()); return r; }
OP(open) { auto f = std::make_unique<fdb5::FDB>(configOf(c)); std::lock_guard<std::mutex> l(mapMutex); fdbs[c["h"].str()] = std::move(f); return V(mj::Obj{}); }
OP(close) { std::unique_ptr<fdb5::FDB> f; { std::lock_guard<std::mutex> l(mapMutex); auto it = fdbs.find(c["h"].str()); if (it != fdbs.end()) { f = std::move(it->second); fdbs.erase(it); } } f.reset(); return V(mj::Obj{}); }
OP(archive) { std::string d = dataOf(c["data"]); fdbOf(c).archive(keyOf(c["key"]), d.data(), d.size()); return V(mj::Obj{}); }
OP(archiven) {
    auto& f = fdbOf(c); V errs; errs.t = V::A; size_t n = 0;
    for (auto& x : c["items"].a) {
        try { std::string d = dataOf(x["data"]); f.archive(keyOf(x["key"]), d.data(), d.size()); }
        catch (std::exception& e) { V r; r.set("i", n); r.set("err", demangle(typeid(e).name())); r.set("what", std::string(e.what())); errs.push(r); }
        ++n;
    }
    V r; r.set("errs", errs); return r;
}
OP(flush) { fdbOf(c).flush(); return V(mj::Obj{}); }
OP(dirty) { V r; r.set("v", fdbOf(c).dirty()); return r; }
OP(archmsg) {
    std::string d = dataOf(c["data"]); eckit::MemoryHandle h(d.data(), d.size());
    if (c.has("req")) fdbOf(c).archive(reqOf(c["req"]), h);
    else if (c["raw"].truth()) fdbOf(c).archive(d.data(), d.size());
    else fdbOf(c).archive(h);
    return V(mj::Obj{});
}
OP(list) {
    auto& f = fdbOf(c); auto it = f.list(treqOf(c), lmode(c), level(c));
    fdb5::ListElement e; V r, a; a.t = V::A;
    while (it.next(e)) {
        V x = elemV(e);
        if (c["read"].truth() && e.hasLocation()) {
            try { std::unique_ptr<eckit::DataHandle> h(e.location().dataHandle()); x.set("data", bytesV(slurp(*h))); }
            catch (std::exception& ex) { x.set("readerr", std::string(ex.what())); }
        }
        a.push(x);
    }
    r.set("elems", a); return r;
}
OP(listprint) {
    auto& f = fdbOf(c); auto it = f.list(treqOf(c), lmode(c), level(c));
    fdb5::ListElement e; V r, a; a.t = V::A;
    while (it.next(e)) { std::ostringstream o; e.print(o, c["location"].truth(), c["length"].truth(), c["timestamp"].truth(), c.has("sep") ? c["sep"].s.c_str() : ","); std::ostringstream j; { eckit::JSON json(j); json << e; } V x; x.set("text", o.str()); x.set("json", j.str()); x.set("e", elemV(e)); a.push(x); }
    r.set("elems", a); return r;
}
OP(compact) {
    auto& f = fdbOf(c); auto it = f.list(treqOf(c), lmode(c), level(c));
    std::ostringstream o; auto p = it.dumpCompact(o);
    V r; r.set("text", o.str()); r.set("n", p.first); r.set("size", (long long)p.second); return r;
}
OP(inspect) {
    auto it = fdbOf(c).inspect(reqOf(c["req"])); fdb5::ListElement e; V r, a; a.t = V::A;
    while (it.next(e)) a.push(elemV(e));
    r.set("elems", a); return r;
}
OP(retrieve) { std::unique_ptr<eckit::DataHandle> h(fdbOf(c).retrieve(reqOf(c["req"]))); return bytesV(slurp(*h, c.has("buf") ? c["buf"].num() : 65536)); }
OP(read) { std::unique_ptr<eckit::DataHandle> h(makeHandle(c)); return bytesV(slurp(*h, c.has("buf") ? c["buf"].num() : 65536)); }
OP(handle) { std::unique_ptr<eckit::DataHandle> h(makeHandle(c)); V r; r.set("out", opHandle(*h, c["seq"])); return r; }
OP(hopen) { auto h = std::unique_ptr<eckit::DataHandle>(makeHandle(c)); handles[c["id"].str()] = std::move(h); return V(mj::Obj{}); }
OP(hop) { auto it = handles.find(c["id"].str()); if (it == handles.end()) throw std::runtime_error("driver: no handle"); V r; r.set("out", opHandle(*it->second, c["seq"])); return r; }
OP(hdel) { handles.erase(c["id"].str()); return V(mj::Obj{}); }
static V axisV(const fdb5::IndexAxis& ax) {
    V r; r.t = V::O;
    for (auto& kv : ax.map()) { V vs; vs.t = V::A; for (auto& s : kv.second) vs.push(s); r.set(kv.first, vs); }
    return r;
}
OP(axes) { auto ax = fdbOf(c).axes(treqOf(c), level(c)); V r; r.set("axes", axisV(ax)); return r; }
OP(axesit) {
    auto it = fdbOf(c).axesIterator(treqOf(c), level(c)); fdb5::AxesElement e; V r, a; a.t = V::A;
    while (it.next(e)) { V x; x.set("key", keyV(e.key())); x.set("axes", axisV(e.axes())); a.push(x); }
    r.set("elems", a); return r;
}
OP(stats) {
    auto it = fdbOf(c).stats(treqOf(c)); fdb5::StatsElement e; V r, a; a.t = V::A;
    while (it.next(e)) {
        V x; x.set("fields", e.indexStatistics.fieldsCount()); x.set("dups", e.indexStatistics.duplicatesCount());
        x.set("fsize", e.indexStatistics.fieldsSize()); x.set("dsize", e.indexStatistics.duplicatesSize());
        std::ostringstream o; e.dbStatistics.report(o); x.set("report", o.str());
        std::ostringstream o2; e.indexStatistics.report(o2); x.set("ireport", o2.str()); a.push(x);
    }
    r.set("elems", a); return r;
}
OP(status) {
    auto it = fdbOf(c).status(treqOf(c)); fdb5::StatusElement e; V r, a; a.t = V::A;
    while (it.next(e)) { V x; x.set("key", keyV(e.key)); x.set("loc", std::string(e.location.path())); x.set("enabled", cidsV(e.controlIdentifiers)); a.push(x); }
    r.set("elems", a); return r;
}
OP(control) {
    auto it = fdbOf(c).control(treqOf(c), c["action"].str() == "disable" ? fdb5::ControlAction::Disable : fdb5::ControlAction::Enable, cids(c["ids"]));
    fdb5::ControlElement e; V r, a; a.t = V::A;
    while (it.next(e)) { V x; x.set("key", keyV(e.key)); x.set("loc", std::string(e.location.path())); x.set("enabled", cidsV(e.controlIdentifiers)); a.push(x); }
    r.set("elems", a); return r;
}
OP(enabled) {
    V r, a; a.t = V::A; auto& f = fdbOf(c);
    if (f.enabled(ControlIdentifier::List)) a.push("list");
    if (f.enabled(ControlIdentifier::Retrieve)) a.push("retrieve");
    if (f.enabled(ControlIdentifier::Archive)) a.push("archive");
    if (f.enabled(ControlIdentifier::Wipe)) a.push("wipe");
    r.set("v", a); return r;
}
OP(dump) { auto it = fdbOf(c).dump(treqOf(c), c["simple"].truth()); fdb5::DumpElement e; V r, a; a.t = V::A; while (it.next(e)) a.push(e); r.set("elems", a); return r; }
OP(purge) { auto it = fdbOf(c).purge(treqOf(c), c["doit"].truth(), c["porcelain"].truth()); fdb5::PurgeElement e; V r, a; a.t = V::A; while (it.next(e)) a.push(e); r.set("elems", a); return r; }
OP(wipe) {
    auto it = fdbOf(c).wipe(treqOf(c), c["doit"].truth(), c["porcelain"].truth(), c["force"].truth()); fdb5::WipeElement e; V r, a; a.t = V::A;
    while (it.next(e)) { V x, u; u.t = V::A; for (auto& i : e.uris()) u.push(std::string(i.path())); x.set("type", (int)e.type()); x.set("msg", e.msg()); x.set("uris", u); a.push(x); }
    r.set("elems", a); return r;
}
OP(move) {  // as fdb-move does: copy up to the table of contents, then that, then clean up; "upto" stops after a phase
    auto it = fdbOf(c).move(treqOf(c), eckit::URI(c["dest"].str())); std::string upto = c.has("upto") ? c["upto"].str() : "clean";
    if (upto == "nothing") { fdb5::MoveElement x; long k = 0; while (it.next(x)) ++k; V r; r.set("n", k); return r; }
    V r; size_t n = 0; fdb5::MoveElement e, last; std::vector<fdb5::MoveElement> list; bool sync = false;
    while (it.next(e)) { ++n; if (e.sync()) { last = e; sync = true; break; } list.push_back(e); }
    if (n) for (auto& x : list) x.execute();
    if (sync && upto != "copy") {
        last.execute();
        if (upto == "clean") { last.cleanup(); for (auto& x : list) x.cleanup(); while (it.next(e)) { ++n; e.cleanup(); } }
    }
    while (it.next(e)) ++n;
    r.set("n", n); r.set("sync", sync); return r;
}
OP(callbacks) {
    auto log = std::make_shared<std::vector<V>>(); cblogs[c["h"].str()] = log; auto& f = fdbOf(c);
    static std::mutex m;
    f.registerArchiveCallback([log](const fdb5::Key& k, const void* d, size_t n, std::future<std::shared_ptr<const fdb5::FieldLocation>> fut) {
        auto loc = fut.get(); V x; x.set("key", keyV(k)); x.set("data", bytesV(std::string((const char*)d, n)));
        if (loc) { x.set("path", std::string(loc->uri().path())); x.set("off", (long long)loc->offset()); x.set("len", (long long)loc->length()); }
        std::lock_guard<std::mutex> l(m); log->push_back(x); });
    f.registerFlushCallback([log]() { V x; x.set("flush", true); std::lock_guard<std::mutex> l(m); log->push_back(x); });
    return V(mj::Obj{});
}
OP(cblog) { V r, a; a.t = V::A; for (auto& x : *cblogs[c["h"].str()]) a.push(x); cblogs[c["h"].str()]->clear(); r.set("log", a); return r; }
OP(reindexelem) {  // list in c["h"], reindex matching elements into c["to"]
    auto& f = fdbOf(c); V t; t.set("h", c["to"]); auto& g = fdbOf(t);
    auto it = f.list(treqOf(c), true); fdb5::ListElement e; size_t n = 0;
    while (it.next(e)) { g.reindex(e.combinedKey(), e.location()); ++n; }
    V r; r.set("n", n); return r;
}
OP(parallel) {
    std::vector<std::thread> ts; auto& br = c["branches"].a; std::vector<V> res(br.size());
    for (size_t i = 0; i < br.size(); ++i) ts.emplace_back([&, i] { V a; a.t = V::A; for (auto& o : br[i].a) a.push(runOp(o)); res[i] = a; });
    for (auto& t : ts) t.join();
    V r, a; a.t = V::A; for (auto& x : res) a.push(x); r.set("out", a); return r;
}
OP(seq) { V a; a.t = V::A; for (auto& o : c["ops"].a) a.push(runOp(o)); V r; r.set("out", a); return r; }
}  // namespace drv

int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    int out = dup(1);
    dup2(2, 1);
    fcntl(out, F_SETFD, FD_CLOEXEC);
    char* av[] = {argv[0], nullptr};
    eckit::Main::initialise(1, av);
    if (const char* r = getenv("VDRIVER_RES")) {  // name=value;...
        std::istringstream i(r); std::string x;
        while (std::getline(i, x, ';')) if (auto p = x.find('='); p != std::string::npos) eckit::ResourceMgr::instance().set(x.substr(0, p), x.substr(p + 1));
    }
    std::string line; size_t cap = 0; char* buf = nullptr; ssize_t n;
    while ((n = getline(&buf, &cap, stdin)) > 0) {
        line.assign(buf, n);
        mj::V r;
        try {
            mj::V c = mj::parse(line);
            if (c["op"].s == "exit") { drv::handles.clear(); drv::fdbs.clear(); break; }
            if (c["op"].s == "_exit") _exit(0);
            drv::fakeNow = c.has("now") ? (time_t)c["now"].num() : 0;
            r = drv::runOp(c);
        } catch (std::exception& e) { r.set("ok", false).set("err", "driver").set("what", std::string(e.what())); }
        std::string s; mj::dump(r, s); s += '\n';
        size_t off = 0; while (off < s.size()) { ssize_t k = ::write(out, s.data() + off, s.size() - off); if (k <= 0) _exit(3); off += k; }
    }
    return 0;
}
