// Leaf values: arbitrary kind and content, written through a protocol's writer and checked through its reader.
#pragma once
#include "zv.h"
#include <zerialize/errors.hpp>
#include <zerialize/zbuffer.hpp>
#include <bit>
enum Kind { K_NULL, K_BOOL, K_INT, K_UINT, K_DBL, K_STR, K_BIN, K_COUNT };
struct Leaf {
    int kind; bool b; int64_t i; uint64_t u; uint64_t dbits; const uint8_t* p; size_t n;
    double d() const { return std::bit_cast<double>(dbits); }
    std::string_view sv() const { return {(const char*)p, n}; }
    std::span<const std::byte> bin() const { return {(const std::byte*)p, n}; }
};
inline Leaf any_leaf(int kind, const char* num = "v", const char* len = "n", const char* bytes = "s", size_t maxlen = ~size_t(0)) {
    Leaf l{}; l.kind = kind;
    switch (kind) {
    case K_NULL: break;
    case K_BOOL: l.b = zv_bool(num); break;
    case K_INT: l.i = (int64_t)zv_u64(num); break;
    case K_UINT: l.u = zv_u64(num); break;
    case K_DBL: l.dbits = zv_u64(num); break;
    default: l.n = zv_u64(len); if (l.n > maxlen) zv_assume(false); l.p = zv_bytes(bytes, l.n); break;
    }
    return l;
}
template <class W> void put(W& w, const Leaf& l) {
    switch (l.kind) {
    case K_NULL: w.null(); break;
    case K_BOOL: w.boolean(l.b); break;
    case K_INT: w.int64(l.i); break;
    case K_UINT: w.uint64(l.u); break;
    case K_DBL: w.double_(l.d()); break;
    case K_STR: w.string(l.sv()); break;
    default: w.binary(l.bin()); break;
    }
}
// content equality, one arbitrary index at a time (symbolic) or in full (native)
inline void same_bytes(const void* a, const uint8_t* b, size_t n, const char* idx, const char* label) {
    if (zv_symbolic()) {
        uint64_t j = zv_u64(idx);
        if (j < n) { zv_eqinst(j); zv_assert(((const uint8_t*)a)[j] == b[j], label); }
    } else zv_assert(n == 0 || memcmp(a, b, n) == 0, label);
}
template <class P, class V> void expect(const V& v, const Leaf& l) {
    switch (l.kind) {
    case K_NULL: zv_assert(v.isNull(), "null reads back as null"); break;
    case K_BOOL: zv_assert(v.isBool(), "bool keeps its kind"); zv_assert(v.asBool() == l.b, "bool keeps its value"); break;
    case K_INT:
        if constexpr (P::SignExact) zv_assert(v.isInt() && !v.isUInt(), "signed integer keeps its kind");
        else zv_assert(v.isInt() || (l.i >= 0 && v.isUInt()), "signed integer stays an integer");
        if (P::SignExact || v.isInt()) zv_assert(v.asInt64() == l.i, "signed integer keeps its value");
        else zv_assert(v.asUInt64() == (uint64_t)l.i, "signed integer keeps its value");
        break;
    case K_UINT:
        if constexpr (P::SignExact) zv_assert(v.isUInt() && !v.isInt(), "unsigned integer keeps its kind");
        else zv_assert(v.isUInt() || v.isInt(), "unsigned integer stays an integer");
        if (P::SignExact || v.isUInt()) zv_assert(v.asUInt64() == l.u, "unsigned integer keeps its value");
        else zv_assert(v.asInt64() >= 0 && (uint64_t)v.asInt64() == l.u, "unsigned integer keeps its value");
        break;
    case K_DBL: zv_assert(v.isFloat(), "double keeps its kind");
        zv_assert(std::bit_cast<uint64_t>(v.asDouble()) == l.dbits, "double keeps its bits"); break;
    case K_STR: {
        zv_assert(v.isString(), "string keeps its kind");
        auto s = v.asStringView();
        zv_assert(s.size() == l.n, "string keeps its length");
        same_bytes(s.data(), l.p, l.n, "j", "string keeps its bytes");
        break; }
    default: {
        zv_assert(v.isBlob(), "binary keeps its kind");
        auto s = v.asBlob();
        zv_assert(s.size() == l.n, "binary keeps its length");
        same_bytes(s.data(), l.p, l.n, "j", "binary keeps its bytes");
        break; }
    }
    int k = v.isNull() + v.isBool() + (v.isInt() || v.isUInt()) + v.isFloat() + v.isString() + v.isBlob() + v.isArray() + v.isMap();
    zv_assert(k == 1, "exactly one kind");
}
