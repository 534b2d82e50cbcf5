// An arbitrary state of the Zera writer (representation level): used for single-step contracts.
#pragma once
#define ZV_ZERA
#include "leaf.h"
#include "proto.h"
using namespace zerialize;
using RS = PZ::RootSerializer;
template <class W> void scalar(W& w, int v) {
    switch (v) { case 0: w.null(); break; case 1: w.boolean(zv_bool("b")); break; case 2: w.int64((int64_t)zv_u64("i")); break; case 3: w.uint64(zv_u64("u")); break; default: w.double_(std::bit_cast<double>(zv_u64("d"))); }
}
inline std::vector<uint8_t> any_vec(const char* nn, const char* bb, size_t& n, const uint8_t*& p, size_t min = 0) {
    n = zv_u64(nn); zv_assume(n >= min && n < (1ull << 36)); if (!zv_symbolic()) zv_assume(n < (1u << 16));
    p = zv_bytes(bb, n); return std::vector<uint8_t>(p, p + n);
}
static constexpr int MAXD = 3;
struct State {
    RS rs; int depth = 0; bool kind[MAXD], pend[MAXD]; size_t pn[MAXD]; const uint8_t* pb[MAXD]; uint32_t cnt[MAXD]; size_t patch[MAXD];
    size_t env_n = 0, arena_n = 0; const uint8_t *env_b = nullptr, *arena_b = nullptr; std::optional<uint32_t> root;
    void any(int d) {
        rs.env_ = any_vec("nenv", "env", env_n, env_b); rs.arena_ = any_vec("narena", "arena", arena_n, arena_b);
        zv_assume(env_n < (1u << 31) && arena_n < (1u << 31));   // larger documents are refused at the 32-bit limits
        if (zv_bool("has root")) { rs.root_ofs_ = zv_u32("root"); } root = rs.root_ofs_;
        depth = d;
        static const char* nn[] = {"np0", "np1", "np2"}; static const char* bb[] = {"p0", "p1", "p2"};
        for (int i = 0; i < depth; ++i) {
            kind[i] = zv_bool("map"); pend[i] = kind[i] && (i + 1 < depth || zv_bool("pend"));   // only a map awaiting a value has a container open inside it (step_begin opens anywhere, step_end checks)
            cnt[i] = zv_u32("cnt"); zv_assume(cnt[i] < UINT32_MAX); patch[i] = 0;
            auto v = any_vec(nn[i], bb[i], pn[i], pb[i], 4); zv_assume(pn[i] < (1u << 30));
            if (kind[i]) { RS::MapCtx c; c.payload = std::move(v); c.count = cnt[i]; if (pend[i]) { zv_assume(pn[i] >= 20); patch[i] = pn[i] - 16; c.pending_value_patch = patch[i]; } rs.st_.push_back(std::move(c)); }
            else { RS::ArrayCtx c; c.payload = std::move(v); c.count = cnt[i]; rs.st_.push_back(std::move(c)); }
        }
    }
    bool is_map(int i) { return std::holds_alternative<RS::MapCtx>(rs.st_[i]); }
    RS::MapCtx& map_at(int i) { return std::get<RS::MapCtx>(rs.st_[i]); }
    RS::ArrayCtx& arr_at(int i) { return std::get<RS::ArrayCtx>(rs.st_[i]); }
    void same(int i, const char* l) {   // container i is as it was
        zv_assert(is_map(i) == kind[i], l);
        if (kind[i]) { auto& m = map_at(i); zv_assert(m.payload.size() == pn[i] && m.count == cnt[i] && m.pending_value_patch.has_value() == pend[i], l); if (pend[i]) zv_assert(*m.pending_value_patch == patch[i], l); same_bytes(m.payload.data(), pb[i], pn[i], "jb", l); }
        else { auto& a = arr_at(i); zv_assert(a.payload.size() == pn[i] && a.count == cnt[i], l); same_bytes(a.payload.data(), pb[i], pn[i], "jb", l); }
    }
    void below(int n, const char* l) { for (int i = 0; i < n; ++i) same(i, l); }
    // the state after delivering one value at the current depth (the automaton's step)
    void after_value(bool threw) {
        if (depth == 0) {
            zv_assert(threw == root.has_value(), "a value at the root is accepted exactly once");
            if (!threw) { zv_assert(rs.root_ofs_.has_value() && rs.st_.empty(), "the root value is recorded"); zv_cover("root accepted"); }
            return;
        }
        int t = depth - 1;
        if (kind[t] && !pend[t]) { zv_assert(threw, "a map value without its key is refused"); zv_cover("no key"); return; }
        zv_assert(!threw, "a value in an array or after a key is accepted");
        if (threw) return;
        zv_assert(rs.st_.size() == size_t(depth) && is_map(t) == kind[t], "a value leaves the open containers open");
        if (kind[t]) zv_assert(!map_at(t).pending_value_patch && map_at(t).count == cnt[t], "a map then awaits the next key");
        else zv_assert(arr_at(t).count == cnt[t] + 1, "an array counts one more element");
        below(t, "a value leaves the outer containers as they are"); zv_assert(rs.root_ofs_ == root, "a nested value leaves the root as it is");
        zv_cover("value accepted");
    }
};
