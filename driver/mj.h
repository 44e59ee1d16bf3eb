// Minimal JSON for the verification driver. Strings are byte strings: \u00XX is the byte 0xXX.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace mj {
struct V;
using Arr = std::vector<V>;
using Obj = std::vector<std::pair<std::string, V>>;
struct V {
    enum T { Null, Bool, Int, Str, A, O } t = Null;
    long long i = 0;
    std::string s;
    Arr a;
    Obj o;
    V() = default;
    V(bool b) : t(Bool), i(b) {}
    V(int n) : t(Int), i(n) {}
    V(long n) : t(Int), i(n) {}
    V(long long n) : t(Int), i(n) {}
    V(unsigned long long n) : t(Int), i((long long)n) {}
    V(unsigned long n) : t(Int), i((long long)n) {}
    V(unsigned n) : t(Int), i(n) {}
    V(const char* c) : t(Str), s(c) {}
    V(std::string c) : t(Str), s(std::move(c)) {}
    V(Arr x) : t(A), a(std::move(x)) {}
    V(Obj x) : t(O), o(std::move(x)) {}
    bool has(const std::string& k) const { for (auto& p : o) if (p.first == k) return true; return false; }
    const V& operator[](const std::string& k) const {
        for (auto& p : o) if (p.first == k) return p.second;
        static V none; return none;
    }
    V& set(const std::string& k, V v) { o.emplace_back(k, std::move(v)); t = O; return *this; }
    void push(V v) { t = A; a.push_back(std::move(v)); }
    const std::string& str() const { if (t != Str) throw std::runtime_error("mj: not a string"); return s; }
    long long num() const { if (t != Int && t != Bool) throw std::runtime_error("mj: not a number"); return i; }
    bool truth() const { return (t == Bool || t == Int) ? i != 0 : t != Null; }
    bool isNull() const { return t == Null; }
};
struct P {
    const char* p; const char* e;
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
    [[noreturn]] void bad() { throw std::runtime_error("mj: parse error"); }
    std::string str() {
        std::string r; ++p;
        while (p < e && *p != '"') {
            if (*p == '\\') {
                ++p; if (p >= e) bad();
                switch (*p) {
                    case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
                    case 'b': r += '\b'; break; case 'f': r += '\f'; break;
                    case 'u': { if (e - p < 5) bad(); r += (char)strtol(std::string(p + 1, 4).c_str(), nullptr, 16); p += 4; break; }
                    default: r += *p;
                }
                ++p;
            } else r += *p++;
        }
        if (p >= e) bad();
        ++p; return r;
    }
    V val() {
        ws(); if (p >= e) bad();
        if (*p == '"') return V(str());
        if (*p == '[') { ++p; V v; v.t = V::A; ws(); if (p < e && *p == ']') { ++p; return v; }
            for (;;) { v.a.push_back(val()); ws(); if (p >= e) bad(); if (*p == ',') { ++p; continue; } if (*p == ']') { ++p; return v; } bad(); } }
        if (*p == '{') { ++p; V v; v.t = V::O; ws(); if (p < e && *p == '}') { ++p; return v; }
            for (;;) { ws(); if (p >= e || *p != '"') bad(); std::string k = str(); ws(); if (p >= e || *p != ':') bad(); ++p;
                v.o.emplace_back(std::move(k), val()); ws(); if (p >= e) bad(); if (*p == ',') { ++p; continue; } if (*p == '}') { ++p; return v; } bad(); } }
        if (!strncmp_("true")) { p += 4; return V(true); }
        if (!strncmp_("false")) { p += 5; return V(false); }
        if (!strncmp_("null")) { p += 4; return V(); }
        char* q; long long n = strtoll(p, &q, 10); if (q == p) bad(); p = q; return V(n);
    }
    int strncmp_(const char* w) { const char* x = p; while (*w) { if (x >= e || *x != *w) return 1; ++x; ++w; } return 0; }
};
inline V parse(const std::string& s) { P p{s.data(), s.data() + s.size()}; return p.val(); }
inline void dumpStr(const std::string& s, std::string& r) {
    r += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    r += '"';
}
inline void dump(const V& v, std::string& r) {
    switch (v.t) {
        case V::Null: r += "null"; break;
        case V::Bool: r += v.i ? "true" : "false"; break;
        case V::Int: r += std::to_string(v.i); break;
        case V::Str: dumpStr(v.s, r); break;
        case V::A: { r += '['; bool f = true; for (auto& x : v.a) { if (!f) r += ','; f = false; dump(x, r); } r += ']'; break; }
        case V::O: { r += '{'; bool f = true; for (auto& x : v.o) { if (!f) r += ','; f = false; dumpStr(x.first, r); r += ':'; dump(x.second, r); } r += '}'; break; }
    }
}
}  // namespace mj
