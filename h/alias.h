// C16 contracts: views alias the document and outlive the readers used to reach them.
#pragma once
#include "doc.h"
using namespace zerialize;
template <class F, class G> static void rt16(F write, G check) {
    typename P::RootSerializer rs; typename P::Serializer w(rs);
    write(w);
    ZBuffer z = rs.finish();
    check(z);
}
static void in_doc(const ZBuffer& z, const void* p, size_t n, const char* l) { if (n) zv_assert(zv::inside(p, n, z.data(), z.size()), l); }
static Leaf text(int kind, const char* nn, const char* s) {
    if constexpr (P::AnyLen) return any_leaf(kind, "v", nn, s, UINT32_MAX / 4);
    else { static constexpr size_t lens[] = {0, 1, 5, 13, 256}; Leaf l{}; l.kind = kind; l.n = lens[zv_pick(nn, 5)]; l.p = zv_bytes(s, l.n); return l; }
}
template <class V> static std::pair<const void*, size_t> view(const V& v, int kind) {
    if (kind == K_STR) { auto s = v.asStringView(); return {s.data(), s.size()}; }
    auto s = v.asBlob(); return {s.data(), s.size()};
}
static void check(const ZBuffer& z, std::pair<const void*, size_t> v, const Leaf& l) {
    zv_assert(v.second == l.n, "the view has the written length");
    in_doc(z, v.first, v.second, "the view lies in the document's bytes");
    same_bytes(v.first, l.p, l.n, "j", "the view reads the written bytes after the readers are gone");
    zv_cover("viewed");
}
static void at_root(int kind) {
    Leaf l = text(kind, "n", "s");
    rt16([&](auto& w) { put(w, l); }, [&](const ZBuffer& z) {
        std::pair<const void*, size_t> v; { typename P::Deserializer d(z.buf()); v = view(d, kind); } check(z, v, l); });
}
static void in_array(int kind) {
    Leaf l = text(kind, "n", "s");
    rt16([&](auto& w) { w.begin_array(2); w.int64(7); w.begin_array(1); put(w, l); w.end_array(); w.end_array(); }, [&](const ZBuffer& z) {
        std::pair<const void*, size_t> v; { typename P::Deserializer d(z.buf()); v = view(d[1][0], kind); } check(z, v, l); });
}
static void in_map(int kind) {
    Leaf l = text(kind, "n", "s");
    rt16([&](auto& w) { w.begin_map(1); w.key("k"); put(w, l); w.end_map(); }, [&](const ZBuffer& z) {
        std::pair<const void*, size_t> v; { typename P::Deserializer d(z.buf()); v = view(d["k"], kind); } check(z, v, l); });
}
ZV_HARNESS(root_str) { at_root(K_STR); }
ZV_HARNESS(root_bin) { at_root(K_BIN); }
ZV_HARNESS(array_str) { in_array(K_STR); }
ZV_HARNESS(array_bin) { in_array(K_BIN); }
ZV_HARNESS(map_str) { in_map(K_STR); }
ZV_HARNESS(map_bin) { in_map(K_BIN); }
// listed keys, also from the key range of a temporary view
ZV_HARNESS(keys) {
    size_t n = P::NulKeys ? zv_u64("kn") : zv_pick("kn", 4); zv_assume(n <= 65535); const uint8_t* kb = zv_bytes("key", n); if (!P::NulKeys) for (size_t i = 0; i < n; ++i) zv_assume(kb[i] != 0);
    rt16([&](auto& w) { w.begin_array(1); w.begin_map(1); w.key({(const char*)kb, n}); w.null(); w.end_map(); w.end_array(); }, [&](const ZBuffer& z) {
        std::string_view k; size_t c = 0;
        { typename P::Deserializer d(z.buf()); auto r = d[0].mapKeys(); for (std::string_view q : r) { k = q; ++c; } }
        zv_assert(c == 1 && k.size() == n, "the key is listed");
        in_doc(z, k.data(), n, "a listed key lies in the document's bytes");
        same_bytes(k.data(), kb, n, "j", "a listed key reads the written bytes after the readers are gone");
        zv_cover("listed"); });
}
#ifndef ZV_SYMBOLIC
struct Seen { const void* p; size_t n; std::string want; };
template <class V> void collect(const V& v, const Node& n, std::deque<Seen>& out) {
    if (n.kind == K_STR) { auto s = v.asStringView(); out.push_back({s.data(), s.size(), std::string(n.leaf.sv())}); }
    else if (n.kind == K_BIN) { auto s = v.asBlob(); out.push_back({s.data(), s.size(), std::string(n.leaf.sv())}); }
    else if (n.kind == K_ARR) { for (size_t i = 0; i < n.kids.size(); ++i) collect(v[i], n.kids[i], out); }
    else if (n.kind == K_MAP) { for (std::string_view k : v.mapKeys()) out.push_back({k.data(), k.size(), std::string(k)}); for (size_t i = 0; i < n.kids.size(); ++i) collect(v[std::string_view(n.keys[i])], n.kids[i], out); }
}
ZV_EXPLORE(documents) {
    Node n = any_document<P>();
    rt16([&](auto& w) { put(w, n); }, [&](const ZBuffer& z) {
        std::deque<Seen> seen; { typename P::Deserializer d(z.buf()); collect(d, n, seen); }
        for (auto& s : seen) { zv_assert(s.n == s.want.size(), "the view has the written length"); in_doc(z, s.p, s.n, "the view lies in the document's bytes"); zv_assert(!s.n || !memcmp(s.p, s.want.data(), s.n), "the view reads the written bytes after the readers are gone"); } });
}
#endif
