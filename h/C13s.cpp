// C13, inductive step: one writer call from an arbitrary writer state (any envelope, arena, root, and up to three open
// containers of any kind and content) does what the call-sequence automaton allows, and nothing else.
#include "zstate.h"
static void step_value(int d) {
    State s; s.any(d); PZ::Serializer w(s.rs); bool threw = false; int v = (int)zv_pick("v", 5);
    try { scalar(w, v); } catch (const SerializationError&) { threw = true; }
    s.after_value(threw);
}
static void step_str(int d) {
    State s; s.any(d); PZ::Serializer w(s.rs); bool threw = false; size_t n = zv_u64("n"); auto b = zv::bytes("s", n); zv_assume(n <= UINT32_MAX && s.arena_n + n <= UINT32_MAX);
    try { w.string({(const char*)b.data(), n}); } catch (const SerializationError&) { threw = true; }
    s.after_value(threw);
}
static void step_bin(int d) {
    State s; s.any(d); PZ::Serializer w(s.rs); bool threw = false; size_t n = zv_u64("n"); auto b = zv::bytes("s", n); zv_assume(n <= UINT32_MAX && s.arena_n + n + 16 <= UINT32_MAX);
    try { w.binary({(const std::byte*)b.data(), n}); } catch (const SerializationError&) { threw = true; }
    s.after_value(threw);
}
static void step_begin(int d) {
    State s; s.any(d); PZ::Serializer w(s.rs); bool map = zv_bool("map");
    size_t hint = d;
    if (map) w.begin_map(hint); else w.begin_array(hint);
    zv_assert(s.rs.st_.size() == size_t(s.depth) + 1, "opening a container pushes it");
    zv_assert(s.is_map((int)s.rs.st_.size() - 1) == map, "the opened container has its kind");
    if (map) zv_assert(!s.map_at(s.depth).pending_value_patch && s.map_at(s.depth).count == 0, "a new map awaits a key"); else zv_assert(s.arr_at(s.depth).count == 0, "a new array is empty");
    s.below(s.depth, "opening a container leaves the others as they are"); zv_assert(s.rs.root_ofs_ == s.root, "opening a container leaves the root as it is");
    zv_cover("opened");
}
static void step_end(int d) {
    State s; s.any(d); PZ::Serializer w(s.rs); bool map = zv_bool("map"), threw = false;
    try { if (map) w.end_map(); else w.end_array(); } catch (const SerializationError&) { threw = true; }
    if (s.depth == 0) { zv_assert(threw, "closing without an open container is refused"); return; }
    bool ism = s.kind[s.depth - 1];
    if (ism != map) { zv_assert(threw, "closing a container of the other kind is refused"); return; }
    if (ism && s.pend[s.depth - 1]) { zv_assert(threw, "closing a map after a dangling key is refused"); return; }
    --s.depth; s.after_value(threw);
}
static void step_key(int d) {
    State s; s.any(d); PZ::Serializer w(s.rs); bool threw = false; size_t n = zv_u64("kn"); auto k = zv::bytes("key", n);
    try { w.key({(const char*)k.data(), n}); } catch (const SerializationError&) { threw = true; }
    bool ok = s.depth && s.kind[s.depth - 1] && !s.pend[s.depth - 1] && n <= 65535;
    zv_assert(threw == !ok, "a key is accepted exactly in a map that awaits one");
    if (!threw) { zv_assert(s.rs.st_.size() == size_t(s.depth), "a key leaves the open containers open"); auto& m = s.map_at(s.depth - 1); zv_assert(m.pending_value_patch.has_value() && m.count == s.cnt[s.depth - 1] + 1, "the map then awaits the key's value");
        s.below(s.depth - 1, "a key leaves the outer containers as they are"); zv_assert(s.rs.root_ofs_ == s.root, "a key leaves the root as it is"); zv_cover("key accepted"); }
}
static void step_finish(int d) {
    State s; s.any(d); bool threw = false; ZBuffer z;
    try { z = s.rs.finish(); } catch (const SerializationError&) { threw = true; }
    if (s.depth) zv_assert(threw, "finishing with an open container is refused");
    else if (s.env_n + 64 < UINT32_MAX && s.arena_n <= UINT32_MAX) { zv_assert(!threw, "finishing a complete document is accepted"); zv_cover("finished"); }
}
#define AT(f) ZV_HARNESS(f##0) { f(0); } ZV_HARNESS(f##1) { f(1); } ZV_HARNESS(f##2) { f(2); }
AT(step_value) AT(step_str) AT(step_begin) AT(step_end) AT(step_finish)
ZV_HARNESS(step_bin0) { step_bin(0); } ZV_HARNESS(step_bin1) { step_bin(1); } ZV_HARNESS(step_key0) { step_key(0); } ZV_HARNESS(step_key1) { step_key(1); }
