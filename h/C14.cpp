// C14: Zera output conforms to the documented binary layout (ZERA.md), checked by an independent parser of the whole document.
#define ZV_ZERA
#include "leaf.h"
#include "proto.h"
#include "doc.h"
using namespace zerialize;
static uint32_t u32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static void header(const ZBuffer& z) {
    const uint8_t* p = z.data(); size_t n = z.size();
    zv_assert(n >= 36 && u32(p) == 0x564E455A && p[4] == 1 && p[5] == 0 && p[6] == 1 && p[7] == 0, "magic, version and flags are as documented");
    uint32_t root = u32(p + 8), env = u32(p + 12), ar = u32(p + 16);
    zv_assert(env >= 16 && root <= env - 16, "the root reference lies in the envelope");
    zv_assert(ar % 16 == 0 && ar >= 20 + size_t(env) && ar <= n, "the arena is 16-byte aligned behind the envelope");
}
// documents of one value, of any kind and content
static void one(int kind) {
    Leaf l = any_leaf(kind); if (kind >= K_STR) zv_assume(l.n < (1u << 31));
    PZ::RootSerializer rs; PZ::Serializer w(rs); put(w, l); ZBuffer z = rs.finish();
    header(z);
    const uint8_t* p = z.data(); uint32_t env = u32(p + 12), ar = u32(p + 16); const uint8_t* r = p + 20 + u32(p + 8);
    auto is = [&](uint8_t tag, uint8_t fl, uint16_t aux, const char* t) { zv_assert(r[0] == tag && r[1] == fl && r[2] == (uint8_t)aux && r[3] == (uint8_t)(aux >> 8), t); };
    auto num = [&](uint64_t v, const char* t) { zv_assert(u32(r + 4) == (uint32_t)v && u32(r + 8) == (uint32_t)(v >> 32) && u32(r + 12) == 0, t); };
    switch (kind) {
    case K_NULL: is(0, 0, 0, "null has the documented tag"); num(0, "null has no payload"); break;
    case K_BOOL: is(1, 0, l.b, "bool has the documented tag and value"); num(0, "bool has no payload"); break;
    case K_INT: is(2, 0, 0, "int64 has the documented tag"); num((uint64_t)l.i, "int64 is little-endian"); break;
    case K_UINT: is(8, 0, 0, "uint64 has the documented tag"); num(l.u, "uint64 is little-endian"); break;
    case K_DBL: is(3, 0, 0, "double has the documented tag"); num(l.dbits, "double is little-endian"); break;
    case K_STR:
        if (l.n <= 12) { is(4, 1, (uint16_t)l.n, "a string of at most 12 bytes is inline"); uint64_t j = zv_u64("j"); if (j < 12) zv_assert(r[4 + j] == (j < l.n ? l.p[j] : 0), "inline bytes, then zeros"); }
        else { is(4, 0, 0, "a longer string is in the arena"); zv_assert(u32(r + 8) == l.n && u32(r + 12) == 0 && size_t(ar) + u32(r + 4) + l.n == z.size(), "by offset and length"); }
        break;
    default: { is(7, 0, 2, "binary is a u8 typed array"); uint32_t at = u32(r + 4), sh = u32(r + 12);
        zv_assert(u32(r + 8) == l.n && size_t(ar) + at + l.n == z.size() && at % 16 == 0, "data is 16-byte aligned in the arena");
        zv_assert(size_t(sh) + 12 <= env, "shape is in the envelope"); const uint8_t* s = p + 20 + sh; zv_assert(u32(s) == 1 && u32(s + 4) == l.n && u32(s + 8) == 0, "shape is rank 1 with the length"); }
    }
    zv_cover("written");
}
ZV_HARNESS(scalar) { one((int)zv_pick("kind", 5)); }
ZV_HARNESS(string) { one(K_STR); }
ZV_HARNESS(binary) { one(K_BIN); }
// binary data stays 16-byte aligned whatever precedes it in the arena
ZV_HARNESS(align) {
    size_t n = zv_u64("n"), m = zv_u64("n2"); zv_assume(n < (1u << 30) && m < (1u << 30)); auto s = zv::bytes("s", n), b = zv::bytes("s2", m);
    PZ::RootSerializer rs; PZ::Serializer w(rs); w.begin_array(2); w.string({(const char*)s.data(), n}); w.binary({(const std::byte*)b.data(), m}); w.end_array();
    ZBuffer z = rs.finish(); header(z);
    PZ::Deserializer d(z.buf()); uint64_t o = zv_off(d[1].asBlob().data(), z.data(), z.size());
    zv_assert(o % 16 == 0 && o <= z.size() && z.size() - o >= m, "binary data is 16-byte aligned from the start of the buffer");
    zv_cover("aligned");
}
#ifndef ZV_SYMBOLIC
struct Walk {
    const uint8_t* p; size_t n; uint32_t env, ar; std::vector<uint8_t> used;
    void take(size_t at, size_t len, const char* l) { zv_assert(at <= n && len <= n - at, l); for (size_t i = 0; i < len; ++i) { zv_assert(!used[at + i], "no two parts of the document overlap"); used[at + i] = 1; } }
    void etake(size_t ofs, size_t len, const char* l) { zv_assert(ofs <= env && len <= env - ofs, l); take(20 + ofs, len, l); }
    void value(size_t ofs, const Node& nd) {   // ofs: envelope offset of the reference (already taken)
        const uint8_t* r = p + 20 + ofs; uint32_t a = u32(r + 4), b = u32(r + 8), c = u32(r + 12); uint16_t aux = r[2] | r[3] << 8; auto& l = nd.leaf;
        auto num = [&](uint64_t v) { return r[1] == 0 && aux == 0 && a == (uint32_t)v && b == (uint32_t)(v >> 32) && c == 0; };
        switch (nd.kind) {
        case K_NULL: zv_assert(r[0] == 0 && num(0), "null has the documented reference"); break;
        case K_BOOL: zv_assert(r[0] == 1 && r[1] == 0 && aux == l.b && !a && !b && !c, "bool has the documented reference"); break;
        case K_INT: zv_assert(r[0] == 2 && num((uint64_t)l.i), "int64 has the documented reference"); break;
        case K_UINT: zv_assert(r[0] == 8 && num(l.u), "uint64 has the documented reference"); break;
        case K_DBL: zv_assert(r[0] == 3 && num(l.dbits), "double has the documented reference"); break;
        case K_STR:
            zv_assert(r[0] == 4, "a string has the documented tag");
            if (l.n <= 12) { zv_assert(r[1] == 1 && aux == l.n && (!l.n || !memcmp(r + 4, l.p, l.n)), "a string of at most 12 bytes is inline"); for (size_t i = l.n; i < 12; ++i) zv_assert(r[4 + i] == 0, "inline padding is zero"); }
            else { zv_assert(r[1] == 0 && aux == 0 && b == l.n && c == 0, "a longer string is in the arena"); take(size_t(ar) + a, b, "string inside the arena"); zv_assert(!memcmp(p + ar + a, l.p, b), "string bytes in the arena"); }
            break;
        case K_BIN:
            zv_assert(r[0] == 7 && r[1] == 0 && aux == 2 && b == l.n && a % 16 == 0, "binary is an aligned u8 typed array");
            take(size_t(ar) + a, b, "binary inside the arena"); zv_assert(!b || !memcmp(p + ar + a, l.p, b), "binary bytes in the arena");
            etake(c, 12, "shape inside the envelope"); { const uint8_t* s = p + 20 + c; zv_assert(u32(s) == 1 && u32(s + 4) == b && u32(s + 8) == 0, "shape is rank 1 with the length"); } break;
        case K_ARR: {
            zv_assert(r[0] == 5 && r[1] == 0 && aux == 0 && b == 0 && c == 0, "an array has the documented reference");
            etake(a, 4 + 16 * nd.kids.size(), "array payload inside the envelope"); zv_assert(u32(p + 20 + a) == nd.kids.size(), "array payload starts with the count");
            for (size_t i = 0; i < nd.kids.size(); ++i) value(a + 4 + 16 * i, nd.kids[i]); break; }
        default: {
            zv_assert(r[0] == 6 && r[1] == 0 && aux == 0 && b == 0 && c == 0, "a map has the documented reference");
            etake(a, 4, "map payload inside the envelope"); zv_assert(u32(p + 20 + a) == nd.kids.size(), "map payload starts with the count");
            size_t o = a + 4;
            for (size_t i = 0; i < nd.kids.size(); ++i) {
                auto& k = nd.keys[i]; etake(o, 4 + k.size() + 16, "map entry inside the envelope"); const uint8_t* e = p + 20 + o;
                zv_assert((e[0] | e[1] << 8) == (int)k.size() && e[2] == 0 && e[3] == 0, "entry header is key length and zero"); zv_assert(k.empty() || !memcmp(e + 4, k.data(), k.size()), "key bytes follow");
                value(o + 4 + k.size(), nd.kids[i]); o += 4 + k.size() + 16;
            } } }
    }
};
static ZBuffer write(const Node& n) { PZ::RootSerializer rs; PZ::Serializer w(rs); put(w, n); return rs.finish(); }
ZV_EXPLORE(layout) {
    Node n = any_document<PZ>();
    ZBuffer z = write(n); header(z);
    Walk k{z.data(), z.size(), u32(z.data() + 12), u32(z.data() + 16), std::vector<uint8_t>(z.size())};
    k.take(0, 20, "header"); uint32_t root = u32(z.data() + 8); k.etake(root, 16, "root"); k.value(root, n);
    for (size_t i = 0; i < z.size(); ++i) if (!k.used[i]) zv_assert(z.data()[i] == 0, "padding is zero");
    ZBuffer y = write(n); zv_assert(y.size() == z.size() && !memcmp(y.data(), z.data(), z.size()), "equal call sequences give identical bytes");
}
#endif
