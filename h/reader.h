// Contract of a reader on a buffer of arbitrary length and content: every accessor returns or throws
// DeserializationError, and every view it returns lies inside the buffer.  The including file defines D.
#pragma once
#include "zv.h"
#include <zerialize/errors.hpp>
template <class T> static bool in(std::span<const uint8_t> b, const T& v) {
    return zv::inside(v.data(), v.size(), b.data(), b.size());
}
template <class D, class F> static void on_any(F f) {
    auto buf = zv::any_doc();
    try {
        D d(buf);
        zv_cover("constructed");
        f(d, buf);
        zv_cover("returned");
    } catch (const zerialize::DeserializationError&) {
        zv_cover("threw");
    }
}
// a listed key may be reached without asking for the end of the listing
template <class D> static void key_step(const D& d, std::span<const uint8_t> b) {
    auto ks = d.mapKeys();
    if constexpr (requires { ks.count; }) {
        auto it = ks.begin(); auto n = ks.count; zv_assume(n >= 1);
        zv_assert(in(b, *it), "key view inside the buffer"); ++it;
        if (n >= 2) zv_assert(in(b, *it), "key view inside the buffer");
        zv_cover("stepped");
    }
}
#define READER_CONTRACTS(D) \
ZV_HARNESS(key_step) { on_any<D>([](auto& d, auto b) { key_step(d, b); }); } \
ZV_HARNESS(kind) { on_any<D>([](auto& d, auto) { \
    switch (zv_pick("op", 9)) { \
    case 0: (void)d.isNull(); break; case 1: (void)d.isBool(); break; case 2: (void)d.isInt(); break; \
    case 3: (void)d.isUInt(); break; case 4: (void)d.isFloat(); break; case 5: (void)d.isString(); break; \
    case 6: (void)d.isArray(); break; case 7: (void)d.isMap(); break; default: (void)d.isBlob(); } }); } \
ZV_HARNESS(int) { on_any<D>([](auto& d, auto) { \
    switch (zv_pick("op", 8)) { \
    case 0: (void)d.asInt8(); break; case 1: (void)d.asInt16(); break; \
    case 2: (void)d.asInt32(); break; case 3: (void)d.asInt64(); break; case 4: (void)d.asUInt8(); break; \
    case 5: (void)d.asUInt16(); break; case 6: (void)d.asUInt32(); break; default: (void)d.asUInt64(); break; } }); } \
ZV_HARNESS(float) { on_any<D>([](auto& d, auto) { \
    switch (zv_pick("op", 3)) { case 0: (void)d.asBool(); break; case 1: (void)d.asDouble(); break; default: (void)d.asFloat(); } }); } \
ZV_HARNESS(sview) { on_any<D>([](auto& d, auto b) { zv_assert(in(b, d.asStringView()), "string view inside the buffer"); }); } \
ZV_HARNESS(string) { on_any<D>([](auto& d, auto b) { auto s = d.asString(); zv_assert(s.size() <= b.size(), "string no longer than the buffer"); }); } \
ZV_HARNESS(blob) { on_any<D>([](auto& d, auto b) { zv_assert(in(b, d.asBlob()), "blob view inside the buffer"); }); } \
ZV_HARNESS(asize) { on_any<D>([](auto& d, auto) { (void)d.arraySize(); }); } \
ZV_HARNESS(index) { on_any<D>([](auto& d, auto b) { size_t i = zv_u64("i"); auto e = d[i]; (void)e.isNull(); (void)e.isArray(); }); } \
ZV_HARNESS(contains) { on_any<D>([](auto& d, auto b) { size_t kn = zv_u64("kn"); auto kb = zv::bytes("key", kn); \
    (void)d.contains(std::string_view((const char*)kb.data(), kn)); }); } \
ZV_HARNESS(lookup) { on_any<D>([](auto& d, auto b) { size_t kn = zv_u64("kn"); auto kb = zv::bytes("key", kn); \
    auto e = d[std::string_view((const char*)kb.data(), kn)]; (void)e.isNull(); (void)e.isMap(); }); } \
ZV_HARNESS(keys) { on_any<D>([](auto& d, auto b) { for (auto k : d.mapKeys()) zv_assert(in(b, k), "key view inside the buffer"); }); }
// the same for a view reached from the root: every accessor of an element or of a map entry
template <class E> static void any_op(const E& e, std::span<const uint8_t> b) {
    switch (zv_pick("op", 11)) {
    case 0: (void)e.isNull(); (void)e.isBool(); (void)e.isInt(); (void)e.isUInt(); (void)e.isFloat(); (void)e.isString(); (void)e.isArray(); (void)e.isMap(); (void)e.isBlob(); break;
    case 1: (void)e.asBool(); break; case 2: (void)e.asInt64(); break; case 3: (void)e.asUInt64(); break; case 4: (void)e.asDouble(); break;
    case 5: zv_assert(in(b, e.asStringView()), "string view of a child inside the buffer"); break;
    case 6: zv_assert(in(b, e.asBlob()), "blob view of a child inside the buffer"); break;
    case 7: (void)e.arraySize(); break;
    case 8: { auto x = e[(size_t)zv_u64("j")]; (void)x.isNull(); break; }
    case 9: { (void)e.contains("ab"); break; }
    default: { size_t kn = zv_u64("kn2"); auto kb = zv::bytes("key2", kn); auto x = e[std::string_view((const char*)kb.data(), kn)]; (void)x.isNull(); }
    }
    zv_cover("child accessed");
}
#define CHILD_CONTRACTS(D) \
ZV_HARNESS(child_index) { on_any<D>([](auto& d, auto b) { any_op(d[(size_t)zv_u64("i")], b); }); } \
ZV_HARNESS(child_lookup) { on_any<D>([](auto& d, auto b) { size_t kn = zv_u64("kn"); auto kb = zv::bytes("key", kn); any_op(d[std::string_view((const char*)kb.data(), kn)], b); }); } \
ZV_HARNESS(child_keys) { on_any<D>([](auto& d, auto b) { auto e = d[(size_t)zv_u64("i")]; for (auto k : e.mapKeys()) zv_assert(in(b, k), "key view of a child inside the buffer"); }); } \
ZV_HARNESS(child_string) { on_any<D>([](auto& d, auto b) { auto s = d[(size_t)zv_u64("i")].asString(); zv_assert(s.size() <= b.size(), "string no longer than the buffer"); }); }
#ifndef ZV_SYMBOLIC
// every accessor at every node of mutated real documents
template <class V> static void walk(const V& v, std::span<const uint8_t> b, int depth, uint64_t& budget) {
    if (depth > 30 || budget == 0) return; --budget;
    auto t = [&](auto f) { try { f(); } catch (const zerialize::DeserializationError&) {} };
    t([&] { (void)v.isNull(); (void)v.isBool(); (void)v.isInt(); (void)v.isUInt(); (void)v.isFloat(); (void)v.isString(); (void)v.isArray(); (void)v.isMap(); (void)v.isBlob(); });
    t([&] { (void)v.asBool(); }); t([&] { (void)v.asInt8(); }); t([&] { (void)v.asInt16(); }); t([&] { (void)v.asInt32(); }); t([&] { (void)v.asInt64(); });
    t([&] { (void)v.asUInt8(); }); t([&] { (void)v.asUInt16(); }); t([&] { (void)v.asUInt32(); }); t([&] { (void)v.asUInt64(); }); t([&] { (void)v.asDouble(); }); t([&] { (void)v.asFloat(); });
    t([&] { auto s = v.asStringView(); zv_assert(in(b, s), "string view inside the buffer"); std::string c(s); }); t([&] { (void)v.asString(); });
    t([&] { auto s = v.asBlob(); zv_assert(in(b, s), "blob view inside the buffer"); std::vector<std::byte> c(s.begin(), s.end()); });
    t([&] { (void)v.contains("a"); }); t([&] { (void)v["a"]; }); t([&] { (void)v[(size_t)1000000]; });
    t([&] { size_t n = v.arraySize(); for (size_t i = 0; i < n && i < 40 && budget; ++i) t([&] { walk(v[i], b, depth + 1, budget); }); if (n) t([&] { (void)v[n - 1].isNull(); }); t([&] { (void)v[n].isNull(); }); });
    t([&] { size_t c = 0; for (std::string_view k : v.mapKeys()) { zv_assert(in(b, k), "key view inside the buffer"); if (++c > 60 || !budget) break; t([&] { (void)v.contains(k); walk(v[k], b, depth + 1, budget); }); } });
}
#define WALK_CONTRACT(P) \
extern "C" void zv_corpus(uint64_t seed, std::vector<uint8_t>& out) { corpus<P>(seed, out); } \
ZV_EXPLORE(walk) { on_any<P::Deserializer>([](auto& d, auto b) { uint64_t budget = 400; walk(d, b, 0, budget); }); }
#endif
