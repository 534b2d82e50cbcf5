// C11: ZBuffer owns its bytes exactly once and exposes them unchanged.
#include "zv.h"
#include <zerialize/zbuffer.hpp>
#include <stdexcept>
using namespace zerialize;
// ledger of the custom-deleter buffers: how often each was released, and with which pointer
struct Ledger { int freed = 0; const void* got = nullptr; };
enum Mode { M_EMPTY, M_VEC, M_MALLOC, M_U8, M_CHAR, M_VOID, M_COUNT };
struct Want { int mode; const uint8_t* data; size_t n; const uint8_t* bytes; Ledger* led; };   // what the buffer must expose
static uint8_t* fill(uint8_t* p, const uint8_t* s, size_t n) { if (n) memcpy(p, s, n); return p; }
static ZBuffer make(int mode, const char* nn, const char* bb, Ledger& L, Want& w) {
    w = Want{mode, nullptr, 0, nullptr, nullptr};
    if (mode == M_EMPTY) return ZBuffer();
    size_t n = zv_u64(nn); if (!zv_symbolic()) zv_assume(n < (1u << 20));
    const uint8_t* s = zv_bytes(bb, n);
    w.n = n; w.bytes = s;
    switch (mode) {
    case M_VEC: { std::vector<uint8_t> v(n); fill(v.data(), s, n); w.data = v.data(); return ZBuffer(std::move(v)); }
    case M_MALLOC: { auto* p = (uint8_t*)malloc(n ? n : 1); fill(p, s, n); w.data = p; return ZBuffer((void*)p, n, ZBuffer::Deleters::Free); }
    case M_U8: { auto* p = new uint8_t[n ? n : 1]; fill(p, s, n); w.data = p; w.led = &L;
        return ZBuffer(p, n, [l = &L](uint8_t* q) { ++l->freed; l->got = q; delete[] q; }); }
    case M_CHAR: { auto* p = (char*)malloc(n ? n : 1); fill((uint8_t*)p, s, n); w.data = (uint8_t*)p; w.led = &L;
        return ZBuffer(p, n, [l = &L](char* q) { ++l->freed; l->got = q; free(q); }); }
    default: { auto* p = malloc(n ? n : 1); fill((uint8_t*)p, s, n); w.data = (uint8_t*)p; w.led = &L;
        return ZBuffer(p, n, [l = &L](void* q) { ++l->freed; l->got = q; free(q); }); }
    }
}
static void bytes_equal(const void* a, const uint8_t* b, size_t n, const char* label) {
    if (zv_symbolic()) { uint64_t j = zv_u64("j"); if (j < n) { zv_eqinst(j); zv_assert(((const uint8_t*)a)[j] == b[j], label); } }
    else zv_assert(n == 0 || memcmp(a, b, n) == 0, label);
}
static void exposes(const ZBuffer& z, const Want& w) {
    zv_assert(z.size() == w.n, "size is the size given");
    zv_assert(z.empty() == (w.n == 0), "empty() means size 0");
    auto s = z.buf();
    zv_assert(s.size() == w.n && s.data() == z.data(), "buf() views data() and size()");
    zv_assert(z.owned() == (w.mode == M_EMPTY || w.mode == M_VEC), "owned() tells vector-backed buffers");
    if (w.n) { zv_assert(z.data() == w.data, "data() is the memory taken over"); bytes_equal(z.data(), w.bytes, w.n, "the bytes are unchanged"); }
    if (w.led) zv_assert(w.led->freed == 0, "not released while owned");
}
static void copies(const ZBuffer& z, const Want& w) {
    if (zv_bool("string")) { auto s = z.to_debug_string(); zv_assert(s.size() == w.n, "to_debug_string has every byte"); bytes_equal(s.data(), w.bytes, w.n, "to_debug_string copies the bytes"); }
    else { auto v = z.to_vector_copy(); zv_assert(v.size() == w.n && (w.n == 0 || v.data() != z.data()), "to_vector_copy has every byte"); bytes_equal(v.data(), w.bytes, w.n, "to_vector_copy copies the bytes"); }
}
static void released(const Want& w, const char* label) { if (w.led) zv_assert(w.led->freed == 1 && w.led->got == w.data, label); }
static void gone(const Want& w) { if (w.n) zv_assert(!zv_live(w.data, 1), "the memory is released with its last owner"); }
static void is_empty(const ZBuffer& z, const char* label) { zv_assert(z.size() == 0 && z.empty() && z.buf().empty() && z.to_vector_copy().empty(), label); }
ZV_HARNESS(construct) {
    Ledger L; Want w;
    { ZBuffer z = make((int)zv_pick("mode", M_COUNT), "n", "s", L, w); exposes(z, w); zv_cover("constructed"); }
    gone(w); released(w, "released exactly once, by the deleter given");
}
ZV_HARNESS(copy) {
    Ledger L; Want w;
    { ZBuffer z = make((int)zv_pick("mode", M_COUNT), "n", "s", L, w); copies(z, w); exposes(z, w); zv_cover("copied"); }
    gone(w); released(w, "released exactly once, by the deleter given");
}
ZV_HARNESS(move) {
    Ledger L; Want w;
    {
        ZBuffer a = make((int)zv_pick("mode", M_COUNT), "n", "s", L, w);
        ZBuffer b(std::move(a));
        exposes(b, w);
        is_empty(a, "a moved-from buffer is empty");
        zv_cover("moved");
    }
    gone(w); released(w, "released exactly once after a move");
}
ZV_HARNESS(assign) {
    Ledger L, L2; Want w, w2;
    {
        ZBuffer b = make((int)zv_pick("to", M_COUNT), "n2", "s2", L2, w2);
        {
            ZBuffer a = make((int)zv_pick("from", M_COUNT), "n", "s", L, w);
            b = std::move(a);
            exposes(b, w);
            gone(w2); released(w2, "an overwritten buffer is released exactly once");
            is_empty(a, "a moved-from buffer is empty");
        }
        exposes(b, w);
        zv_cover("assigned");
    }
    gone(w); released(w, "released exactly once after an assignment");
    released(w2, "not released twice");
}
// a moved-from buffer can be assigned again, and ownership travels through a chain of moves
ZV_HARNESS(reuse) {
    Ledger L, L2; Want w, w2;
    {
        ZBuffer a = make((int)zv_pick("mode", M_COUNT), "n", "s", L, w);
        { ZBuffer b(std::move(a)); a = make((int)zv_pick("mode2", M_COUNT), "n2", "s2", L2, w2); exposes(b, w); exposes(a, w2); }
        released(w, "released exactly once by the last owner");
        exposes(a, w2);
        zv_cover("reused");
    }
    released(w2, "released exactly once by the last owner");
    released(w, "not released twice");
}
ZV_HARNESS(self) {
    Ledger L; Want w;
    { ZBuffer a = make((int)zv_pick("mode", M_COUNT), "n", "s", L, w); ZBuffer* p = &a; a = std::move(*p); (void)a.size(); (void)a.buf(); if (w.led && a.size()) exposes(a, w); zv_cover("self-assigned"); }
    gone(w); released(w, "released exactly once after self-assignment");
}
ZV_HARNESS(reject) {
    Ledger L; size_t n = zv_u64("n"); bool null = zv_bool("null"), nodel = zv_bool("nodel"); int kind = (int)zv_pick("kind", 3);
    zv_assume(n > 0 || nodel); zv_assume(null || nodel);
    static uint8_t mem[1]; uint8_t* p = null ? nullptr : mem;
    bool threw = false;
    try {
        switch (kind) {
        case 0: { std::function<void(uint8_t*)> f; if (!nodel) f = [l = &L](uint8_t*) { ++l->freed; }; ZBuffer z(p, n, std::move(f)); break; }
        case 1: { std::function<void(char*)> f; if (!nodel) f = [l = &L](char*) { ++l->freed; }; ZBuffer z((char*)p, n, std::move(f)); break; }
        default: { std::function<void(void*)> f; if (!nodel) f = [l = &L](void*) { ++l->freed; }; ZBuffer z((void*)p, n, std::move(f)); break; }
        }
    } catch (const std::invalid_argument&) { threw = true; zv_cover("rejected"); }
    zv_assert(threw, "a null pointer with a size, or no deleter, is rejected");
    zv_assert(L.freed <= 1, "nothing is released twice on rejection");
}
#ifndef ZV_SYMBOLIC
// histories of construct/move/assign/destroy over three slots
ZV_EXPLORE(history) {
    Ledger L[16]; Want all[16]; int made = 0;
    std::unique_ptr<ZBuffer> slot[3]; int owner[3] = {-1, -1, -1};   // ledger index each slot owns (-1: nothing / empty)
    auto fresh = [&](int& id) { id = made; auto z = std::make_unique<ZBuffer>(make((int)zv_pick("mode", M_COUNT), "n", "s", L[made], all[made])); ++made; return z; };
    int steps = 3 + (int)zv_pick("steps", 12);
    for (int i = 0; i < steps && made < 14; ++i) {
        int a = (int)zv_pick("a", 3), b = (int)zv_pick("b", 3);
        switch (zv_pick("op", 5)) {
        case 0: { int id; slot[a] = fresh(id); owner[a] = id; break; }
        case 1: slot[a].reset(); owner[a] = -1; break;
        case 2: if (a != b && slot[a]) { slot[b] = std::make_unique<ZBuffer>(std::move(*slot[a])); owner[b] = owner[a]; owner[a] = -2; } break;
        case 3: if (a != b && slot[a] && slot[b]) { *slot[b] = std::move(*slot[a]); owner[b] = owner[a]; owner[a] = -2; } break;
        default: { int id; auto z = fresh(id); if (slot[a]) { *slot[a] = std::move(*z); owner[a] = id; } break; }
        }
        bool alive[16] = {};
        for (int s = 0; s < 3; ++s) {
            if (!slot[s]) continue;
            if (owner[s] >= 0) { alive[owner[s]] = true; exposes(*slot[s], all[owner[s]]); copies(*slot[s], all[owner[s]]); }
            else is_empty(*slot[s], "a moved-from buffer is empty");
        }
        for (int m = 0; m < made; ++m) if (!alive[m]) released(all[m], "released exactly once when its owner went away");
    }
}
#endif
