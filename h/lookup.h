// C15 contracts: lookup, membership, key listing and indexing agree, through the public writer and reader of protocol P.
#pragma once
#include "doc.h"
using namespace zerialize;
#ifdef ZV_SYMBOLIC
template <class F> static bool throws_de(F f) { try { f(); return false; } catch (const DeserializationError&) { return true; } }
#endif
template <class F, class G> static void rt15(F write, G check) {
    typename P::RootSerializer rs; typename P::Serializer w(rs);
    write(w);
    ZBuffer z = rs.finish();
    typename P::Deserializer d(z.buf());
    check(d);
}
struct Key { const char* p; size_t n; std::string_view sv() const { return {p, n}; } };
// keys of every content at selected lengths (any length and content: the explorations below, and map1 of the round-trip contracts)
static Key key(const char* len, const char* bytes, bool longer = false) {
    static constexpr size_t lens[] = {0, 1, 2, 3, 33}; size_t m = longer ? 5 : 3;
    Key k; k.n = lens[zv_pick(len, m)]; k.p = (const char*)zv_bytes(bytes, k.n); if (!P::NulKeys) for (size_t i = 0; i < k.n; ++i) zv_assume(k.p[i] != 0);
    return k;
}
// two keys related in any way (prefixes included), a probe related to them in any way
static void map2(int op) {
    Key a = key("kn", "key", op < 4), b = key("kn2", "key2"), q = op == 4 || op == 5 ? key("kn3", "key3", true) : Key{};
    zv_assume(a.sv() != b.sv());
    int64_t x = P::AnyLen ? (int64_t)zv_u64("x") : 11, y = P::AnyLen ? (int64_t)zv_u64("y") : -70000;
    rt15([&](auto& w) { w.begin_map(2); w.key(a.sv()); w.int64(x); w.key(b.sv()); w.int64(y); w.end_map(); },
         [&](auto& d) {
             switch (op) {
             case 0: zv_assert(d.contains(a.sv()), "a written key is contained"); break;
             case 1: zv_assert(d.contains(b.sv()), "a written key is contained"); break;
             case 2: zv_assert(d[a.sv()].asInt64() == x, "lookup returns the value written under the key"); break;
             case 3: zv_assert(d[b.sv()].asInt64() == y, "lookup returns the value written under the key"); break;
             case 4: if (q.sv() == a.sv() || q.sv() == b.sv()) return; zv_assert(!d.contains(q.sv()), "an absent key is not contained"); zv_cover("absent"); break;
             case 5: if (q.sv() == a.sv() || q.sv() == b.sv()) return; zv_assert(throws_de([&] { (void)d[q.sv()]; }), "lookup of an absent key throws"); zv_cover("absent"); break;
             default: { size_t c = 0; for (std::string_view k : d.mapKeys()) { ++c; zv_assert(k.size() == a.n || k.size() == b.n, "listed keys are the written keys"); } zv_assert(c == 2, "as many keys are listed as were written"); }
             } });
    zv_cover("looked up");
}
#define LK(i) ZV_HARNESS(map_##i) { map2(i); }
LK(0) LK(1) LK(2) LK(3) LK(4) LK(5) LK(6)
// array indices
ZV_HARNESS(index) {
    size_t n = zv_pick("len", 5), i = zv_pick("i", 6); if (i == 5) { i = zv_u64("far"); zv_assume(i >= n); }
    int64_t v[4] = {(int64_t)zv_u64("v"), -1, 300, P::AnyLen ? (int64_t)zv_u64("v2") : 5};
    rt15([&](auto& w) { w.begin_array(n); if (n > 0) w.int64(v[0]); if (n > 1) w.int64(v[1]); if (n > 2) w.int64(v[2]); if (n > 3) w.int64(v[3]); w.end_array(); },
         [&](auto& d) {
             zv_assert(d.isArray() && d.arraySize() == n, "an array has the written size");
             bool thr = false; int64_t got = 0;
             try { got = d[i].asInt64(); } catch (const DeserializationError&) { thr = true; }
             zv_assert(thr == (i >= n), "indexing succeeds exactly below the size");
             if (!thr) { for (size_t k = 0; k < 4; ++k) if (k == i) zv_assert(got == v[k], "indexing returns the element written there"); zv_cover("in range"); } else zv_cover("out of range"); });
}
#ifndef ZV_SYMBOLIC
ZV_EXPLORE(documents) { Node n = any_document<P>(); rt15([&](auto& w) { put(w, n); }, [&](auto& d) { expect<P>(d, n); }); }
ZV_EXPLORE(maps) {   // one map with many neighbouring keys
    ZvSrc s; std::set<std::string> all; std::vector<std::string> keys; size_t c = zv_pick("cnt", 20);
    for (size_t i = 0; i < c; ++i) {
        std::string k = keys.empty() || zv_pick("fresh", 3) == 0 ? s.bytes(zv_pick("klen", 6)) : keys[zv_pick("of", keys.size())];
        switch (zv_pick("how", 6)) { case 0: k += (char)zv_u8("c"); break; case 1: if (!k.empty()) k.pop_back(); break; case 2: if (!k.empty()) k.back() ^= 1 << zv_pick("bit", 8); break; case 3: k = std::string(1, (char)zv_u8("c")) + k; break; case 4: k += k; break; default: break; }
        if (!P::NulKeys) for (auto& ch : k) if (!ch) ch = 1;
        if (all.insert(k).second) keys.push_back(k);
    }
    rt15([&](auto& w) { w.begin_map(keys.size()); for (size_t i = 0; i < keys.size(); ++i) { w.key(keys[i]); w.uint64(i * 1000003); } w.end_map(); },
         [&](auto& d) {
             std::multiset<std::string> got; for (std::string_view k : d.mapKeys()) got.insert(std::string(k));
             zv_assert(got == std::multiset<std::string>(all.begin(), all.end()), "listed keys are exactly the written keys");
             for (size_t i = 0; i < keys.size(); ++i) { zv_assert(d.contains(keys[i]), "a written key is contained"); zv_assert(d[std::string_view(keys[i])].asUInt64() == i * 1000003, "lookup returns the value written under the key"); }
             for (int i = 0; i < 12; ++i) {
                 std::string k = keys.empty() ? s.bytes(1) : keys[zv_pick("of", keys.size())];
                 switch (i % 6) { case 0: k += (char)zv_u8("c"); break; case 1: if (!k.empty()) k.pop_back(); break; case 2: if (!k.empty()) k.back() ^= 1 << zv_pick("bit", 8); break; case 3: k += std::string(1, '\0'); break; case 4: k = "a" + k; break; default: if (!k.empty()) k[0] ^= 0x80; }
                 if (all.count(k)) continue;
                 zv_assert(!d.contains(k), "an absent key is not contained"); zv_assert(throws_de([&] { (void)d[std::string_view(k)]; }), "lookup of an absent key throws");
             } });
}
#endif
