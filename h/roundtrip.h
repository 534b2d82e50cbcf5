// Round-trip contracts over the public writer and reader of protocol P.
template <class F, class G> static void rt(F write, G check) {
    typename P::RootSerializer rs; typename P::Serializer w(rs);
    write(w);
    ZBuffer z = rs.finish();
    typename P::Deserializer d(z.buf());
    check(d, z);
    zv_cover("read back");
}
static constexpr size_t U32 = UINT32_MAX;
static void root(int kind) {
    Leaf l = any_leaf(kind);
    try { rt([&](auto& w) { put(w, l); }, [&](auto& d, auto&) { expect<P>(d, l); }); }
    catch (const SerializationError&) { zv_assert(l.n > U32, "only sizes beyond 32 bits are refused"); }
}
ZV_HARNESS(root_scalar) { root((int)zv_pick("kind", 5)); }
ZV_HARNESS(root_str) { root(K_STR); }
ZV_HARNESS(root_bin) { root(K_BIN); }
// an element survives whatever its neighbours are, at each position
// (FlexBuffers: the proof covers selected lengths across its width classes; the root_* contracts cover every length)
static Leaf leaf(int kind, const char* v, const char* n, const char* s) {
    if constexpr (!P::AnyLen) if (kind >= K_STR) {
        static constexpr size_t lens[] = {0, 1, 2, 5, 8, 13, 255, 256};
        Leaf l{}; l.kind = kind; l.n = lens[zv_pick(n, 8)]; l.p = zv_bytes(s, l.n); return l;
    }
    return any_leaf(kind, v, n, s, U32);
}
static void pair(int ka, int kb) {
    Leaf a = leaf(ka, "v", "n", "s"), b = leaf(kb, "v2", "n2", "s2");
    try {
    rt([&](auto& w) { w.begin_array(2); put(w, a); put(w, b); w.end_array(); },
       [&](auto& d, auto&) { zv_assert(d.isArray() && !d.isMap() && d.arraySize() == 2, "array keeps kind and size");
         if (zv_bool("second")) expect<P>(d[1], b); else expect<P>(d[0], a); });
    } catch (const SerializationError&) { zv_assert(a.n + b.n > U32 - 128, "only documents beyond 32 bits are refused"); }
}
#define PAIR(k) ZV_HARNESS(pair_##k) { pair(k, (int)zv_pick("kind", 5)); }
PAIR(0) PAIR(1) PAIR(2) PAIR(3) PAIR(4)
ZV_HARNESS(pair_str_num) { pair(K_STR, K_INT); }
ZV_HARNESS(pair_num_str) { pair(K_UINT, K_STR); }
ZV_HARNESS(pair_bin_num) { pair(K_BIN, K_DBL); }
ZV_HARNESS(pair_bin_str) { pair(K_BIN, K_STR); }
ZV_HARNESS(empty) {
    bool m = zv_bool("map");
    rt([&](auto& w) { if (m) { w.begin_map(0); w.end_map(); } else { w.begin_array(0); w.end_array(); } },
       [&](auto& d, auto&) {
           zv_assert(d.isMap() == m && d.isArray() == !m && !d.isNull(), "empty container keeps its kind");
           if (m) { for (auto k : d.mapKeys()) { (void)k; zv_assert(false, "empty map lists no key"); } }
           else zv_assert(d.arraySize() == 0, "empty array has no element"); });
}
// containers inside containers
ZV_HARNESS(nest) {
    Leaf a = leaf(K_INT, "v", "n", "s"), b = leaf(K_UINT, "v2", "n2", "s2"), c = leaf(K_BOOL, "v3", "n3", "s3");
    bool inner = zv_bool("inner map");
    rt([&](auto& w) {
           w.begin_array(3); put(w, a);
           if (inner) { w.begin_map(1); w.key("k"); put(w, b); w.end_map(); } else { w.begin_array(1); put(w, b); w.end_array(); }
           put(w, c); w.end_array(); },
       [&](auto& d, auto&) {
           zv_assert(d.isArray() && d.arraySize() == 3, "array keeps kind and size");
           switch (zv_pick("at", 3)) {
           case 0: expect<P>(d[0], a); break;
           case 1: if (inner) { auto e = d[1]; zv_assert(e.isMap(), "inner map keeps its kind"); expect<P>(e["k"], b); }
                   else { auto e = d[1]; zv_assert(e.isArray() && e.arraySize() == 1, "inner array keeps kind and size"); expect<P>(e[0], b); } break;
           default: expect<P>(d[2], c); } });
}
// a map entry is found under its key, whatever the key's bytes and whatever other entry the map has
struct Key { const char* p; size_t n; std::string_view sv() const { return {p, n}; } };
static Key any_key(const char* len, const char* bytes, size_t maxn) {
    Key k;
    if constexpr (P::NulKeys) { k.n = zv_u64(len); zv_assume(k.n <= maxn); k.p = (const char*)zv_bytes(bytes, k.n); }
    else { k.n = zv_pick(len, maxn + 1); k.p = (const char*)zv_bytes(bytes, k.n); for (size_t i = 0; i < k.n; ++i) zv_assume(k.p[i] != 0); }
    return k;
}
ZV_HARNESS(map1) {
    Key k = any_key("kn", "key", P::NulKeys ? 65535 : 4); Leaf a = leaf(K_INT, "v", "n", "s");
    rt([&](auto& w) { w.begin_map(1); w.key(k.sv()); put(w, a); w.end_map(); },
       [&](auto& d, auto&) {
           zv_assert(d.isMap() && !d.isArray(), "map keeps its kind");
           switch (zv_pick("op", 3)) {
           case 0: zv_assert(d.contains(k.sv()), "written key is contained"); break;
           case 1: expect<P>(d[k.sv()], a); break;
           default: { size_t c = 0; for (std::string_view q : d.mapKeys()) { ++c; zv_assert(q.size() == k.n, "listed key keeps its length"); same_bytes(q.data(), (const uint8_t*)k.p, k.n, "j", "listed key keeps its bytes"); }
                      zv_assert(c == 1, "one key listed"); } } });
}
#ifndef ZV_SYMBOLIC
ZV_EXPLORE(nested) {
    Node n = any_document<P>();
    rt([&](auto& w) { put(w, n); }, [&](auto& d, auto& z) { DocRange r{z.data(), z.size()}; expect<P>(d, n, &r); });
}
#endif
