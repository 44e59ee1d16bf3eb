// Chunked views of archived fields.
#include "driver.h"
#include <cstring>
#include "chunked_data_view/AxisDefinition.h"
#include "chunked_data_view/ChunkedDataView.h"
#include "chunked_data_view/ChunkedDataViewBuilder.h"
#include "chunked_data_view/Fdb.h"
#include "chunked_data_view/GribExtractor.h"
namespace cdv = chunked_data_view;
namespace drv {
#define OP(name) static V op_##name(const V& c); static Reg reg_##name(#name, op_##name); static V op_##name(const V& c)
static std::map<std::string, std::unique_ptr<cdv::ChunkedDataView>>& views() { static std::map<std::string, std::unique_ptr<cdv::ChunkedDataView>> m; return m; }
static V sizes(const std::vector<size_t>& s) { V a; a.t = V::A; for (auto x : s) a.push((long long)x); return a; }
// {h, config: path, parts: [{req, axes: [{keys, chunk: "whole"|"single"|n}]}], extend?, fill?}
OP(vbuild) {
    views().erase(c["h"].str());
    cdv::ChunkedDataViewBuilder b(c["config"].str());
    for (auto& p : c["parts"].a) {
        std::vector<cdv::AxisDefinition> axes;
        for (auto& a : p["axes"].a) {
            cdv::AxisDefinition d;
            for (auto& k : a["keys"].a) d.keys.push_back(k.str());
            if (a["chunk"].t == V::Str) { if (a["chunk"].str() == "whole") d.chunking = cdv::AxisDefinition::WholeAxisChunking{}; else d.chunking = cdv::AxisDefinition::SingleValueChunking{}; }
            else d.chunking = cdv::AxisDefinition::FixedSizeChunking{(size_t)a["chunk"].num()};
            axes.push_back(d);
        }
        std::shared_ptr<cdv::FdbInterface> fdb = cdv::makeFdb(c["config"].str());
        b.addPart(p["req"].str(), axes, std::make_shared<cdv::GribExtractor>(fdb));
    }
    if (c.has("extend")) b.extendOnAxis((size_t)c["extend"].num());
    if (c.has("fill")) b.fillMissingValue((float)c["fill"].num());
    auto v = b.build();
    V r; r.set("shape", sizes(v->shape())); r.set("chunk", sizes(v->chunkShape())); r.set("chunks", sizes(v->chunks())); r.set("count", (long long)v->countChunkValues());
    views()[c["h"].str()] = std::move(v); return r;
}
// {h, index, len?} -> the chunk's bytes; the buffer is exactly as long as it is said to be and holds a marker beforehand
OP(vat) {
    auto& v = *views().at(c["h"].str()); size_t len = c.has("len") ? (size_t)c["len"].num() : v.countChunkValues();
    std::vector<float> buf(len); uint32_t mark = 0x7fa1b2c3; for (auto& f : buf) std::memcpy(&f, &mark, 4);
    std::vector<size_t> i; for (auto& x : c["index"].a) i.push_back((size_t)x.num());
    v.at(i, buf.data(), len);
    V r; r.set("hex", hex(std::string((const char*)buf.data(), len * 4))); return r;
}
OP(vdrop) { views().erase(c["h"].str()); return V(mj::Obj{}); }
}
