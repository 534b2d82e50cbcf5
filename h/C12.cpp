// C12: Base64 is RFC 4648-exact and round-trips; decoding rejects exactly the texts with a foreign character before the padding.
#include "zv.h"
#include <zerialize/internals/base64.hpp>
using namespace zerialize;
// reference: the character for a 6-bit value, and its inverse (64: not in the alphabet), written out arithmetically
static uint8_t ch(uint8_t v) { return (uint8_t)('A' + v + (v >= 26) * 6 - (v >= 52) * 75 - (v >= 62) * 15 + (v >= 63) * 3); }
static unsigned in(uint8_t c, uint8_t a, uint8_t z) { return (uint8_t)(c - a) <= (uint8_t)(z - a); }
static uint8_t val(uint8_t c) {
    unsigned u = in(c, 'A', 'Z'), l = in(c, 'a', 'z'), d = in(c, '0', '9'), p = c == '+', s = c == '/';
    return (uint8_t)(u * (c - 'A') + l * (c - 'a' + 26) + d * (c - '0' + 52) + p * 62 + s * 63 + (1 - u - l - d - p - s) * 64);
}
// reference: character j of the encoding of n bytes
static uint8_t enc_at(const uint8_t* d, size_t n, size_t j) {
    size_t g = j / 4 * 3; uint8_t a = d[g], b = g + 1 < n ? d[g + 1] : 0, c = g + 2 < n ? d[g + 2] : 0;
    switch (j % 4) {
    case 0: return ch(a >> 2);
    case 1: return ch((a & 3) << 4 | b >> 4);
    case 2: return g + 1 < n ? ch((b & 15) << 2 | c >> 6) : '=';
    default: return g + 2 < n ? ch(c & 63) : '=';
    }
}
static void enc(size_t n, const uint8_t* d) {
    std::string e = base64Encode({(const std::byte*)d, n});
    zv_assert(e.size() == (n + 2) / 3 * 4, "encoded length is 4*ceil(n/3)");
    for (size_t j = 0; j < e.size(); ++j) zv_assert((uint8_t)e[j] == enc_at(d, n, j), "every character is the RFC 4648 character");
    zv_cover("encoded");
}
static void rtrip(size_t n, const uint8_t* d) {
    std::string e = base64Encode({(const std::byte*)d, n});
    auto v = base64Decode(e);
    zv_assert(v.size() == n, "decoding returns as many bytes");
    for (size_t j = 0; j < n; ++j) zv_assert((uint8_t)v[j] == d[j], "decoding returns the original bytes");
    zv_cover("decoded");
}
// m characters, of which the first k are in the alphabet and the next one, if any, is not
static void dec(size_t m, const uint8_t* t, size_t k) {
    bool bad = k < m && t[k] != '=';
    std::vector<std::byte> v;
    try { v = base64Decode(std::string_view((const char*)t, m)); }
    catch (const DeserializationError&) { zv_assert(bad, "only a foreign character before the padding is rejected"); zv_cover("rejected"); return; }
    zv_assert(!bad, "a foreign character before the padding is rejected");
    zv_assert(v.size() == k * 6 / 8, "as many bytes as the characters hold");
    for (size_t j = 0; j < v.size(); ++j) {
        size_t q = j / 3 * 4; uint8_t w;
        switch (j % 3) { case 0: w = val(t[q]) << 2 | val(t[q + 1]) >> 4; break; case 1: w = val(t[q + 1]) << 4 | val(t[q + 2]) >> 2; break; default: w = val(t[q + 2]) << 6 | val(t[q + 3]); }
        zv_assert((uint8_t)v[j] == w, "each byte is what its characters denote");
    }
    zv_cover("decoded");
}
static void dec(size_t m, const uint8_t* t) { size_t k = 0; while (k < m && val(t[k]) != 64) ++k; dec(m, t, k); }
ZV_HARNESS(enc_len) { size_t n = zv_pick("len", 20); enc(n, zv_bytes("s", n)); }
ZV_HARNESS(rt_len) { size_t n = zv_pick("len", 14); rtrip(n, zv_bytes("s", n)); }
ZV_HARNESS(dec_len) {
    size_t n = zv_pick("len", 10), k = zv_pick("valid", 10); zv_assume(k <= n); const uint8_t* t = zv_bytes("s", n);
    for (size_t i = 0; i < k; ++i) zv_assume(val(t[i]) != 64);
    if (k < n) { uint64_t w = zv_pick("then", 2); zv_assume(w ? t[k] == '=' : val(t[k]) == 64 && t[k] != '='); }
    dec(n, t, k);
}
#ifndef ZV_SYMBOLIC
ZV_EXPLORE(enc) { size_t n = zv_u64("n"); zv_assume(n < 4096); enc(n, zv_bytes("s", n)); }
ZV_EXPLORE(rt) { size_t n = zv_u64("n"); zv_assume(n < 4096); rtrip(n, zv_bytes("s", n)); }
ZV_EXPLORE(dec) { size_t n = zv_u64("n"); zv_assume(n < 4096); dec(n, zv_bytes("s", n)); }
// mostly valid texts with one character replaced
ZV_EXPLORE(dec_near) {
    size_t n = zv_u64("n"); zv_assume(n < 512); const uint8_t* d = zv_bytes("s", n);
    std::string e; for (size_t j = 0; j < (n + 2) / 3 * 4; ++j) e.push_back((char)enc_at(d, n, j));
    for (int i = 0, k = (int)zv_pick("edits", 3); i < k && !e.empty(); ++i) {
        size_t at = zv_pick("at", e.size());
        switch (zv_pick("how", 4)) { case 0: e[at] = (char)zv_u8("c"); break; case 1: e.erase(at, 1); break; case 2: e.insert(at, 1, '='); break; default: e.insert(at, 1, (char)zv_u8("c")); }
    }
    std::unique_ptr<uint8_t[]> t(new uint8_t[e.size()]); memcpy(t.get(), e.data(), e.size());   // exactly these characters, no terminator
    dec(e.size(), t.get());
}
#endif
