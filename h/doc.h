// Arbitrary nested documents for native runs of a contract: generated from zv inputs (so a failing document replays),
// written through a protocol's writer, and checked in full through its reader.
#pragma once
#include "leaf.h"
#ifndef ZV_SYMBOLIC
#include <deque>
#include <set>
enum { K_ARR = K_COUNT, K_MAP };
struct Node { Leaf leaf{}; int kind = 0; std::deque<Node> kids; std::deque<std::string> keys; };
struct ZvSrc {   // inputs of the harness
    uint64_t pick(const char* n, uint64_t k) { return zv_pick(n, k); }
    Leaf leaf(int kind) { return any_leaf(kind, "v", "ln"); }
    std::string bytes(size_t n) { auto* p = zv_bytes("key", n); return std::string((const char*)p, n); }
};
struct LcgSrc {  // a private pseudo-random stream (sample documents, not inputs)
    uint64_t s; std::deque<std::string> keep;
    uint64_t r() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (s >> 29) ^ (s >> 3); }
    uint64_t pick(const char*, uint64_t k) { return r() % k; }
    std::string bytes(size_t n) { std::string o; for (size_t i = 0; i < n; ++i) o.push_back((char)('a' + r() % 3)); return o; }
    Leaf leaf(int kind) {
        Leaf l{}; l.kind = kind; l.b = r() & 1; l.u = r() >> (r() % 64); l.i = (int64_t)l.u * ((r() & 1) ? 1 : -1); l.dbits = r() * r();
        if (kind >= K_STR) { static const size_t z[] = {0, 1, 5, 12, 13, 31, 32, 40, 255, 256}; keep.push_back(bytes(z[r() % 10])); l.p = (const uint8_t*)keep.back().data(); l.n = keep.back().size(); }
        return l;
    }
};
template <class S> Node any_node(S& s, int depth, int& budget, bool nulkeys = true) {
    Node n;
    n.kind = (int)s.pick("kind", depth > 0 && budget > 0 ? 11 : 7);
    if (n.kind > K_MAP) n.kind = K_ARR + n.kind % 2;
    if (n.kind < K_COUNT) { n.leaf = s.leaf(n.kind); return n; }
    static const int counts[] = {0, 1, 2, 2, 3, 4, 5, 7, 15, 16, 17, 33};
    int c = counts[s.pick("cnt", depth >= 2 ? 12 : 7)];
    std::set<std::string> seen;
    for (int i = 0; i < c; ++i) {
        --budget;
        if (n.kind == K_MAP) {
            static const size_t lens[] = {0, 1, 1, 2, 3, 4, 8, 12, 31, 32, 33, 255, 256, 300};
            std::string k;
            if (!n.keys.empty() && s.pick("derive", 3) == 0) {  // a neighbour of an earlier key
                k = n.keys[s.pick("of", n.keys.size())];
                switch (s.pick("how", 4)) { case 0: k += 'x'; break; case 1: if (!k.empty()) k.pop_back(); break;
                case 2: if (!k.empty()) k.back() ^= 0x80; break; default: k = "y" + k; }
            } else k = s.bytes(lens[s.pick("klen", 14)]);
            if (!nulkeys) for (auto& ch : k) if (!ch) ch = 'z';
            if (!seen.insert(k).second) continue;
            n.keys.push_back(k);
        }
        n.kids.push_back(any_node(s, depth - 1, budget, nulkeys));
    }
    return n;
}
template <class W> void put(W& w, const Node& n) {
    if (n.kind == K_ARR) { w.begin_array(n.kids.size()); for (auto& k : n.kids) put(w, k); w.end_array(); }
    else if (n.kind == K_MAP) {
        w.begin_map(n.kids.size());
        for (size_t i = 0; i < n.kids.size(); ++i) {
            // the key argument is exactly its bytes: no terminator, and gone after the call
            std::unique_ptr<char[]> kb(new char[n.keys[i].size()]); memcpy(kb.get(), n.keys[i].data(), n.keys[i].size());
            w.key(std::string_view(kb.get(), n.keys[i].size())); put(w, n.kids[i]);
        }
        w.end_map();
    } else put(w, n.leaf);
}
template <class F> bool throws_de(F f) { try { f(); return false; } catch (const zerialize::DeserializationError&) { return true; } }
struct DocRange { const uint8_t* p; size_t n; };
template <class P, class V> void expect(const V& v, const Node& n, DocRange* doc = nullptr) {
    auto inside = [&](const void* p, size_t len, const char* l) { if (doc && len) zv_assert(zv::inside(p, len, doc->p, doc->n), l); };
    if (n.kind == K_ARR) {
        zv_assert(v.isArray() && !v.isMap() && !v.isNull() && !v.isString() && !v.isBlob(), "array keeps its kind");
        zv_assert(v.arraySize() == n.kids.size(), "array keeps its size");
        for (size_t i = 0; i < n.kids.size(); ++i) expect<P>(v[i], n.kids[i], doc);
        size_t s = n.kids.size();
        for (size_t bad : {s, s + 1, s + 16, size_t(1) << 32, (size_t(1) << 32) + (s ? s - 1 : 0), size_t(1) << 60, ~size_t(0)})
            zv_assert(throws_de([&] { (void)v[bad]; }), "index at or beyond the size throws");
        zv_assert(throws_de([&] { (void)v["a"]; }), "lookup in a non-map throws");
        zv_assert(!v.contains("a"), "a non-map contains no key");
    } else if (n.kind == K_MAP) {
        zv_assert(v.isMap() && !v.isArray() && !v.isNull() && !v.isString() && !v.isBlob(), "map keeps its kind");
        std::set<std::string> want(n.keys.begin(), n.keys.end()), got;
        size_t cnt = 0;
        for (std::string_view k : v.mapKeys()) { inside(k.data(), k.size(), "key view inside the document"); got.insert(std::string(k)); ++cnt; zv_assert(v.contains(k), "a listed key is contained"); }
        zv_assert(cnt == n.kids.size() && got == want, "listed keys are exactly the written keys");
        for (size_t i = 0; i < n.kids.size(); ++i) {
            zv_assert(v.contains(n.keys[i]), "a written key is contained");
            expect<P>(v[std::string_view(n.keys[i])], n.kids[i], doc);
            for (std::string probe : {n.keys[i] + "x", n.keys[i].substr(0, n.keys[i].size() / 2), std::string("y") + n.keys[i], n.keys[i] + std::string(1, '\0')})
                if (!want.count(probe)) {
                    zv_assert(!v.contains(probe), "an absent key is not contained");
                    zv_assert(throws_de([&] { (void)v[std::string_view(probe)]; }), "lookup of an absent key throws");
                }
        }
        if (!want.count("")) zv_assert(!v.contains("") && throws_de([&] { (void)v[std::string_view("")]; }), "an absent key is not contained");
        zv_assert(throws_de([&] { (void)v[size_t(0)]; }) && throws_de([&] { (void)v.arraySize(); }), "indexing a map throws");
    } else {
        expect<P>(v, n.leaf);
        if (n.kind == K_STR) { auto s = v.asStringView(); inside(s.data(), s.size(), "string view inside the document"); zv_assert(v.asString() == n.leaf.sv(), "asString equals the written string"); }
        if (n.kind == K_BIN) { auto s = v.asBlob(); inside(s.data(), s.size(), "blob view inside the document"); }
        zv_assert(throws_de([&] { (void)v[size_t(0)]; }) && throws_de([&] { (void)v[std::string_view("a")]; }), "an element of a scalar throws");
        zv_assert(!v.contains("a"), "a scalar contains no key");
    }
}
template <class P> Node any_document(int depth = 3) { ZvSrc s; int budget = 60; return any_node(s, depth, budget, P::NulKeys); }
template <class P> void corpus(uint64_t seed, std::vector<uint8_t>& out) {
    LcgSrc s{seed, {}}; int budget = 12; Node n = any_node(s, 3, budget, P::NulKeys);
    typename P::RootSerializer rs; typename P::Serializer w(rs); put(w, n);
    auto z = rs.finish(); out.assign(z.data(), z.data() + z.size());
}
#endif
