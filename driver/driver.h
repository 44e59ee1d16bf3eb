#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "mj.h"
#include "eckit/io/DataHandle.h"
#include "fdb5/api/FDB.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/api/helpers/ListElement.h"
#include "fdb5/database/Key.h"
#include "metkit/mars/MarsRequest.h"
namespace drv {
using mj::V;
using Op = std::function<V(const V&)>;
std::map<std::string, Op>& ops();
struct Reg { Reg(const char* n, Op f) { ops()[n] = std::move(f); } };
V runOp(const V& cmd);  // never throws; {"ok":..}
fdb5::FDB& fdbOf(const V& c);
fdb5::Key keyOf(const V& v);                 // {"k":"v"} or [["k","v"],...]
metkit::mars::MarsRequest reqOf(const V& v, const std::string& verb = "retrieve");  // {"k":["v",..]}
fdb5::FDBToolRequest treqOf(const V& c);     // c["req"], c["all"]
std::string dataOf(const V& v);              // {"hex":..} | {"id":..,"len":..} | {"file":..}
std::string fillData(unsigned long long id, size_t len);
std::string hex(const std::string& s);
std::string unhex(const std::string& s);
V keyV(const fdb5::BaseKey& k);
V elemV(const fdb5::ListElement& e);
V bytesV(const std::string& data);           // {"len","md5","hex"?}
std::string slurp(eckit::DataHandle& h, size_t bufsize = 65536);
}
