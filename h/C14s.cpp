// C14, inductive step: one writer call from an arbitrary writer state appends exactly the documented bytes and changes no others.
#include "zstate.h"
// expected ValueRef16
struct VR { uint8_t b[16]; };
static VR vr(uint8_t tag, uint8_t fl, uint16_t aux, uint32_t a, uint32_t b, uint32_t c) {
    VR r{}; r.b[0] = tag; r.b[1] = fl; r.b[2] = (uint8_t)aux; r.b[3] = (uint8_t)(aux >> 8);
    for (int i = 0; i < 4; ++i) { r.b[4 + i] = (uint8_t)(a >> 8 * i); r.b[8 + i] = (uint8_t)(b >> 8 * i); r.b[12 + i] = (uint8_t)(c >> 8 * i); }
    return r;
}
static void is_vr(const uint8_t* p, const VR& v, const char* l) { for (int i = 0; i < 16; ++i) zv_assert(p[i] == v.b[i], l); }
static uint32_t u32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
// the value reference just delivered at depth s.depth; nothing else changed there
static const uint8_t* delivered(State& s) {
    if (s.depth == 0) { size_t at = *s.rs.root_ofs_; zv_assert(at + 16 == s.rs.env_.size(), "the root reference ends the envelope"); return s.rs.env_.data() + at; }
    int t = s.depth - 1;
    if (s.kind[t]) { auto& m = s.map_at(t); zv_assert(m.payload.size() == s.pn[t], "a map value fills its reserved slot");
        if (s.pn[t] > 16) { uint64_t j = zv_u64("jp"); if (j < s.pn[t] - 16) zv_assert(m.payload[j] == s.pb[t][j], "earlier map entries are unchanged"); }
        return m.payload.data() + s.patch[t]; }
    auto& a = s.arr_at(t); zv_assert(a.payload.size() == s.pn[t] + 16, "an array grows by one reference"); { uint64_t j = zv_u64("jp"); if (j < s.pn[t]) zv_assert(a.payload[j] == s.pb[t][j], "earlier elements are unchanged"); }
    return a.payload.data() + s.pn[t];
}
static void env_kept(State& s, size_t grow) {
    zv_assert(s.rs.env_.size() == s.env_n + grow, "the envelope grows by exactly the emitted payload");
    uint64_t j = zv_u64("je"); if (j < s.env_n) zv_assert(s.rs.env_[j] == s.env_b[j], "earlier envelope bytes are unchanged");
}
static void arena_kept(State& s) { uint64_t j = zv_u64("ja"); if (j < s.arena_n) zv_assert(s.rs.arena_[j] == s.arena_b[j], "earlier arena bytes are unchanged"); }
static bool accepts(State& s) { return s.depth == 0 ? !s.root : !s.kind[s.depth - 1] || s.pend[s.depth - 1]; }
static void step_value(int d) {
    State s; s.any(d); if (!accepts(s)) return; PZ::Serializer w(s.rs);
    VR e; const char* l;
    switch (zv_pick("v", 5)) {
    case 0: w.null(); e = vr(0, 0, 0, 0, 0, 0); l = "null has the documented reference"; break;
    case 1: { bool b = zv_bool("b"); w.boolean(b); e = vr(1, 0, b, 0, 0, 0); l = "bool has the documented reference"; break; }
    case 2: { uint64_t i = zv_u64("i"); w.int64((int64_t)i); e = vr(2, 0, 0, (uint32_t)i, (uint32_t)(i >> 32), 0); l = "int64 has the documented reference"; break; }
    case 3: { uint64_t i = zv_u64("u"); w.uint64(i); e = vr(8, 0, 0, (uint32_t)i, (uint32_t)(i >> 32), 0); l = "uint64 has the documented reference"; break; }
    default: { uint64_t i = zv_u64("d"); w.double_(std::bit_cast<double>(i)); e = vr(3, 0, 0, (uint32_t)i, (uint32_t)(i >> 32), 0); l = "double has the documented reference"; } }
    is_vr(delivered(s), e, l);
    env_kept(s, d == 0 ? 16 : 0); zv_assert(s.rs.arena_.size() == s.arena_n, "scalars leave the arena alone"); arena_kept(s);
    zv_cover("value");
}
static void step_istr(int d) {   // inline strings
    State s; s.any(d); if (!accepts(s)) return; PZ::Serializer w(s.rs); size_t n = zv_pick("len", 13); auto b = zv::bytes("s", n);
    w.string({(const char*)b.data(), n});
    VR e = vr(4, 1, (uint16_t)n, 0, 0, 0); for (size_t i = 0; i < n; ++i) e.b[4 + i] = b[i];
    is_vr(delivered(s), e, "a string of at most 12 bytes is inline, zero-padded");
    env_kept(s, d == 0 ? 16 : 0); zv_assert(s.rs.arena_.size() == s.arena_n, "inline strings leave the arena alone"); arena_kept(s);
    zv_cover("inline");
}
static void step_str(int d) {    // arena strings
    State s; s.any(d); if (!accepts(s)) return; PZ::Serializer w(s.rs); size_t n = zv_u64("n"); zv_assume(n > 12 && n < (1u << 31)); auto b = zv::bytes("s", n);
    w.string({(const char*)b.data(), n});
    const uint8_t* p = delivered(s); uint32_t at = u32(p + 4);
    is_vr(p, vr(4, 0, 0, at, (uint32_t)n, 0), "a longer string refers to the arena by offset and length");
    zv_assert(at >= s.arena_n && size_t(at) + n == s.rs.arena_.size(), "its bytes end the arena");
    { uint64_t j = zv_u64("j"); if (j < n) zv_assert(s.rs.arena_[at + j] == b[j], "its bytes are in the arena"); }
    { uint64_t j = zv_u64("jz"); if (j >= s.arena_n && j < at) zv_assert(s.rs.arena_[j] == 0, "arena padding is zero"); }
    env_kept(s, d == 0 ? 16 : 0); arena_kept(s); zv_cover("string");
}
static void step_bin(int d) {
    State s; s.any(d); if (!accepts(s)) return; PZ::Serializer w(s.rs); size_t n = zv_u64("n"); zv_assume(n < (1u << 31)); auto b = zv::bytes("s", n);
    w.binary({(const std::byte*)b.data(), n});
    const uint8_t* p = delivered(s); uint32_t at = u32(p + 4), sh = u32(p + 12);
    is_vr(p, vr(7, 0, 2, at, (uint32_t)n, sh), "binary is a u8 typed array with offset, length and shape");
    zv_assert(at % 16 == 0 && at >= s.arena_n && at - s.arena_n < 16 && size_t(at) + n == s.rs.arena_.size(), "its data is 16-byte aligned and ends the arena");
    switch (zv_pick("what", 4)) {
    case 0: { uint64_t j = zv_u64("j"); if (j < n) zv_assert(s.rs.arena_[at + j] == b[j], "its data is in the arena"); break; }
    case 1: { uint64_t j = zv_u64("jz"); if (j >= s.arena_n && j < at) zv_assert(s.rs.arena_[j] == 0, "arena padding is zero"); break; }
    case 2: { zv_assert(sh == s.env_n && s.rs.env_.size() >= size_t(sh) + 12, "its shape is in the envelope"); const uint8_t* q = s.rs.env_.data() + sh;
        zv_assert(u32(q) == 1 && u32(q + 4) == n && u32(q + 8) == 0, "its shape is rank 1 with its length"); break; }
    default: env_kept(s, d == 0 ? 28 : 12); arena_kept(s); }
    zv_cover("binary");
}
static void step_key(int d) {
    State s; s.any(d); int t = d - 1; if (!s.kind[t] || s.pend[t]) return; PZ::Serializer w(s.rs); size_t n = zv_u64("kn"); zv_assume(n <= 65535); auto k = zv::bytes("key", n);
    w.key({(const char*)k.data(), n});
    auto& m = s.map_at(t); const uint8_t* p = m.payload.data() + s.pn[t];
    zv_assert(m.payload.size() == s.pn[t] + 4 + n + 16, "an entry is header, key and value reference");
    switch (zv_pick("what", 4)) {
    case 0: zv_assert(p[0] == (uint8_t)n && p[1] == (uint8_t)(n >> 8) && p[2] == 0 && p[3] == 0, "the entry header is key length and zero"); break;
    case 1: { uint64_t j = zv_u64("j"); if (j < n) zv_assert(p[4 + j] == k[j], "the key bytes follow"); break; }
    case 2: { uint64_t j = zv_u64("jp"); if (j < s.pn[t]) zv_assert(m.payload[j] == s.pb[t][j], "earlier entries are unchanged"); break; }
    default: zv_assert(m.pending_value_patch && *m.pending_value_patch == s.pn[t] + 4 + n, "the value slot follows the key"); env_kept(s, 0); arena_kept(s); }
    zv_cover("key");
}
static void step_begin(int d) {
    State s; s.any(d); PZ::Serializer w(s.rs); bool map = zv_bool("map"); if (map) w.begin_map(2); else w.begin_array(2);
    auto& v = map ? s.map_at(d).payload : s.arr_at(d).payload;
    zv_assert(v.size() == 4, "a container payload starts with its 32-bit count"); env_kept(s, 0); arena_kept(s); zv_cover("opened");
}
static void step_end(int d) {
    State s; s.any(d); int t = d - 1; bool map = s.kind[t]; if (map && s.pend[t]) return;
    --s.depth; if (!accepts(s)) return; PZ::Serializer w(s.rs);
    if (map) w.end_map(); else w.end_array();
    const uint8_t* p = delivered(s); uint32_t at = u32(p + 4);
    is_vr(p, vr(map ? 6 : 5, 0, 0, at, 0, 0), "a container refers to its payload in the envelope");
    zv_assert(at == s.env_n && s.rs.env_.size() == s.env_n + s.pn[t] + (d == 1 ? 16 : 0), "its payload is appended to the envelope");
    switch (zv_pick("what", 3)) {
    case 0: zv_assert(u32(s.rs.env_.data() + at) == s.cnt[t], "the payload starts with the count"); break;
    case 1: { uint64_t j = zv_u64("j"); if (j >= 4 && j < s.pn[t]) zv_assert(s.rs.env_[at + j] == s.pb[t][j], "the payload is the collected references"); break; }
    default: { uint64_t j = zv_u64("je"); if (j < s.env_n) zv_assert(s.rs.env_[j] == s.env_b[j], "earlier envelope bytes are unchanged"); arena_kept(s); } }
    zv_cover("closed");
}
ZV_HARNESS(step_finish) {
    State s; s.any(0); bool dflt = !s.root; if (!dflt) zv_assume(s.env_n >= 16 && *s.root <= s.env_n - 16);
    ZBuffer z = s.rs.finish(); const uint8_t* p = z.data();
    size_t env = s.env_n + (dflt ? 16 : 0), ar = (20 + env + 15) / 16 * 16;
    zv_assert(z.size() == ar + s.arena_n, "the document is header, envelope, padding and arena");
    switch (zv_pick("what", 6)) {
    case 0: zv_assert(u32(p) == 0x564E455A && p[4] == 1 && p[5] == 0 && p[6] == 1 && p[7] == 0, "magic, version and flags are as documented"); break;
    case 1: zv_assert(u32(p + 8) == (dflt ? s.env_n : *s.root) && u32(p + 12) == env && u32(p + 16) == ar, "root offset, envelope size and arena offset are as documented"); break;
    case 2: { uint64_t j = zv_u64("j"); if (j < s.env_n) zv_assert(p[20 + j] == s.env_b[j], "the envelope follows the header"); break; }
    case 3: { uint64_t j = zv_u64("j"); if (j < s.arena_n) zv_assert(p[ar + j] == s.arena_b[j], "the arena is at its offset"); break; }
    case 4: { uint64_t j = zv_u64("j"); if (j >= 20 + env && j < ar) zv_assert(p[j] == 0, "the padding is zero"); break; }
    default: if (dflt) is_vr(p + 20 + s.env_n, vr(0, 0, 0, 0, 0, 0), "an empty document has a null root"); }
    zv_cover("finished");
}
#define AT(f) ZV_HARNESS(f##0) { f(0); } ZV_HARNESS(f##1) { f(1); }
AT(step_value) AT(step_istr) AT(step_str) AT(step_bin) AT(step_begin)
ZV_HARNESS(step_key1) { step_key(1); }
ZV_HARNESS(step_end1) { step_end(1); }
ZV_HARNESS(step_end2) { step_end(2); }
