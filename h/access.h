// C06 contracts: every accessor against every stored kind, through the public writer and reader of protocol P.
#pragma once
#include "leaf.h"
using namespace zerialize;
// a mathematical integer: neg ? (int64_t)bits : bits
struct Num { bool neg; uint64_t bits; };
template <class T> bool fits(Num x) {
    if constexpr (std::is_signed_v<T>) return x.neg ? (int64_t)x.bits >= (int64_t)std::numeric_limits<T>::min() : x.bits <= (uint64_t)std::numeric_limits<T>::max();
    else return !x.neg && x.bits <= (uint64_t)std::numeric_limits<T>::max();
}
template <class T> bool is(T r, Num x) { return x.neg ? (std::is_signed_v<T> && r < 0 && (uint64_t)(int64_t)r == x.bits) : (r >= 0 && (uint64_t)r == x.bits); }
// cross: the accessor's signedness differs from the stored kind and the protocol is strict about it
template <class T, class F> static void one(F f, Num x, bool cross) {
    T r;
    try { r = f(); } catch (const DeserializationError&) { zv_assert(!fits<T>(x) || cross, "an integer that fits is returned, not refused"); zv_cover("refused"); return; }
    zv_assert(fits<T>(x) && is<T>(r, x), "an integer accessor returns exactly the stored integer");
    zv_cover("returned");
}
template <class V> static void int_access(const V& v, Num x, bool cs, bool cu) {
    switch (zv_pick("op", 8)) {
    case 0: one<int8_t>([&] { return v.asInt8(); }, x, cs); break;
    case 1: one<int16_t>([&] { return v.asInt16(); }, x, cs); break;
    case 2: one<int32_t>([&] { return v.asInt32(); }, x, cs); break;
    case 3: one<int64_t>([&] { return v.asInt64(); }, x, cs); break;
    case 4: one<uint8_t>([&] { return v.asUInt8(); }, x, cu); break;
    case 5: one<uint16_t>([&] { return v.asUInt16(); }, x, cu); break;
    case 6: one<uint32_t>([&] { return v.asUInt32(); }, x, cu); break;
    default: one<uint64_t>([&] { return v.asUInt64(); }, x, cu); break;
    }
}
template <class F> static void must_throw(F f, const char* label) {
    try { f(); } catch (const DeserializationError&) { zv_cover("mismatch refused"); return; }
    zv_assert(false, label);
}
template <class F> static bool threw(F f) { try { f(); } catch (const DeserializationError&) { return true; } return false; }
template <class P, class F, class G> static void rt6(F write, G check) {
    typename P::RootSerializer rs; typename P::Serializer w(rs);
    write(w);
    ZBuffer z = rs.finish();
    typename P::Deserializer d(z.buf());
    check(d);
}
template <class P> void ints(int kind) {
    Leaf l = any_leaf(kind);
    Num x{kind == K_INT && l.i < 0, kind == K_INT ? (uint64_t)l.i : l.u};
    rt6<P>([&](auto& w) { put(w, l); }, [&](auto& d) { int_access(d, x, kind == K_UINT && !P::CrossSign, kind == K_INT && !P::CrossSign); });
}
// an integer stays exact as an array element too
template <class P> void elem_ints() {
    int kind = zv_bool("unsigned") ? K_UINT : K_INT;
    Leaf l = any_leaf(kind);
    Num x{kind == K_INT && l.i < 0, kind == K_INT ? (uint64_t)l.i : l.u};
    rt6<P>([&](auto& w) { w.begin_array(1); put(w, l); w.end_array(); }, [&](auto& d) { int_access(d[0], x, kind == K_UINT && !P::CrossSign, kind == K_INT && !P::CrossSign); });
}
template <class V> static void wrong_kind(const V& v, int kind) {
    switch (zv_pick("op", 18)) {
    case 0: if (kind != K_BOOL) must_throw([&] { (void)v.asBool(); }, "asBool of another kind throws"); break;
    case 1: if (kind != K_INT && kind != K_UINT) must_throw([&] { (void)v.asInt64(); }, "asInt64 of another kind throws"); break;
    case 2: if (kind != K_INT && kind != K_UINT) must_throw([&] { (void)v.asUInt64(); }, "asUInt64 of another kind throws"); break;
    case 3: if (kind != K_DBL) must_throw([&] { (void)v.asDouble(); }, "asDouble of another kind throws"); break;
    case 4: if (kind != K_DBL) must_throw([&] { (void)v.asFloat(); }, "asFloat of another kind throws"); break;
    case 5: if (kind != K_STR) must_throw([&] { (void)v.asStringView(); }, "asStringView of another kind throws"); break;
    case 6: if (kind != K_STR) must_throw([&] { (void)v.asString(); }, "asString of another kind throws"); break;
    case 7: if (kind != K_BIN) must_throw([&] { (void)v.asBlob(); }, "asBlob of another kind throws"); break;
    case 8: if (kind != K_COUNT) must_throw([&] { (void)v.arraySize(); }, "arraySize of a non-array throws"); break;
    case 9: if (kind != K_COUNT) must_throw([&] { (void)v[(size_t)zv_u64("i")]; }, "an element of a non-array throws"); break;
    case 10: if (kind != K_COUNT + 1) must_throw([&] { (void)v[std::string_view("k")]; }, "lookup in a non-map throws"); break;
    case 11: if (kind != K_COUNT + 1) must_throw([&] { auto k = v.mapKeys(); (void)(k.begin() == k.end()); }, "keys of a non-map throw"); break;
    case 12: if (kind != K_COUNT + 1) zv_assert(!v.contains("k"), "a non-map contains no key"); break;
    case 13: if (kind != K_INT && kind != K_UINT) must_throw([&] { (void)v.asInt8(); }, "asInt8 of another kind throws"); break;
    case 14: if (kind != K_INT && kind != K_UINT) must_throw([&] { (void)v.asUInt8(); }, "asUInt8 of another kind throws"); break;
    case 15: if (kind != K_INT && kind != K_UINT) must_throw([&] { (void)v.asInt32(); (void)v.asInt16(); }, "asInt32 of another kind throws"); break;
    case 16: if (kind != K_INT && kind != K_UINT) must_throw([&] { (void)v.asUInt32(); (void)v.asUInt16(); }, "asUInt32 of another kind throws"); break;
    default: {   // the kind tests agree with what was stored and with what the accessors accept
        zv_assert(v.isNull() == (kind == K_NULL), "isNull tells the kind"); zv_assert(v.isBool() == (kind == K_BOOL), "isBool tells the kind");
        zv_assert((v.isInt() || v.isUInt()) == (kind == K_INT || kind == K_UINT), "isInt/isUInt tell the kind");
        zv_assert(v.isFloat() == (kind == K_DBL), "isFloat tells the kind"); zv_assert(v.isString() == (kind == K_STR), "isString tells the kind");
        zv_assert(v.isBlob() == (kind == K_BIN), "isBlob tells the kind"); zv_assert(v.isArray() == (kind == K_COUNT), "isArray tells the kind");
        zv_assert(v.isMap() == (kind == K_COUNT + 1), "isMap tells the kind");
        if (v.isInt()) zv_assert(!threw([&] { (void)v.asInt64(); }), "asInt64 accepts what isInt announces");
        if (v.isUInt()) zv_assert(!threw([&] { (void)v.asUInt64(); }), "asUInt64 accepts what isUInt announces");
        if (v.isFloat()) zv_assert(!threw([&] { (void)v.asDouble(); }), "asDouble accepts what isFloat announces");
        if (v.isBool()) zv_assert(!threw([&] { (void)v.asBool(); }), "asBool accepts what isBool announces");
        if (v.isString()) zv_assert(!threw([&] { (void)v.asStringView(); }), "asStringView accepts what isString announces");
        if (v.isBlob()) zv_assert(!threw([&] { (void)v.asBlob(); }), "asBlob accepts what isBlob announces");
        if (v.isArray()) zv_assert(!threw([&] { (void)v.arraySize(); }), "arraySize accepts what isArray announces");
        if (v.isMap()) zv_assert(!threw([&] { (void)v.mapKeys(); }), "mapKeys accepts what isMap announces");
        zv_cover("kinds agree"); } }
}
template <class P> void mismatch(int kind) {
    Leaf l{}; if (kind < K_COUNT) l = any_leaf(kind, "v", "n", "s", 1u << 20);
    rt6<P>([&](auto& w) {
        if (kind == K_COUNT) { w.begin_array(1); w.null(); w.end_array(); }
        else if (kind == K_COUNT + 1) { w.begin_map(1); w.key("a"); w.null(); w.end_map(); }
        else put(w, l); }, [&](auto& d) { wrong_kind(d, kind); });
}
#define ACCESS_CONTRACTS(P) \
ZV_HARNESS(int) { ints<P>(K_INT); } \
ZV_HARNESS(uint) { ints<P>(K_UINT); } \
ZV_HARNESS(elem) { elem_ints<P>(); } \
ZV_HARNESS(mis_scalar) { mismatch<P>((int)zv_pick("kind", 5)); } \
ZV_HARNESS(mis_str) { mismatch<P>(K_STR); } \
ZV_HARNESS(mis_bin) { mismatch<P>(K_BIN); } \
ZV_HARNESS(mis_arr) { mismatch<P>(K_COUNT); } \
ZV_HARNESS(mis_map) { mismatch<P>(K_COUNT + 1); }
