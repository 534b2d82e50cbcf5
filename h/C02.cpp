// C02: MessagePack reader is memory-safe and total on arbitrary bytes.
#define ZV_MSGPACK
#include "reader.h"
#include "proto.h"
#include "doc.h"
using namespace zerialize;
// contract of the element skipper: 1 <= result <= v.size(), or DeserializationError (discharged by H_def_skip)
// ZV_CONTRACT zerialize::mp_skip( = ZC_mp_skip
extern "C" size_t ZC_mp_skip(std::span<const uint8_t> v) {
    zv_assert(v.size() == 0 || zv_live(v.data(), v.size()), "mp_skip requires a live view");
    if (zv_havocbool()) throw DeserializationError("contract");
    size_t r = zv_havoc64();
    zv_assume(r >= 1 && r <= v.size());
    return r;
}
template <class S> static auto skip(S v) { if constexpr (requires { mp_skip(v); }) return mp_skip(v); else { zv_unsupported("no mp_skip"); return size_t(1); } }
ZV_HARNESS(def_skip) {
    auto b = zv::any_doc();
    try { size_t r = skip(b); zv_assert(r >= 1 && r <= b.size(), "mp_skip result within the view"); zv_cover("skip returned"); }
    catch (const DeserializationError&) { zv_cover("skip threw"); }
}
READER_CONTRACTS(MsgPack::Deserializer)
// a child is a reader of the same class over a sub-span of the buffer, so the contracts above cover every accessor at every depth
template <class E> static void sub(const E& e, std::span<const uint8_t> b) {
    if constexpr (std::is_same_v<E, MsgPack::Deserializer> && requires { e.view_; }) { zv_assert(in(b, e.view_), "a child reads a sub-span of the buffer"); zv_cover("child"); }
    else any_op(e, b);
}
ZV_HARNESS(child_index) { on_any<MsgPack::Deserializer>([](auto& d, auto b) { sub(d[(size_t)zv_u64("i")], b); }); }
ZV_HARNESS(child_lookup) { on_any<MsgPack::Deserializer>([](auto& d, auto b) { size_t kn = zv_u64("kn"); auto kb = zv::bytes("key", kn); sub(d[std::string_view((const char*)kb.data(), kn)], b); }); }
#ifndef ZV_SYMBOLIC
WALK_CONTRACT(PM)
#endif
