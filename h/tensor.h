// An abstract document that may hold a tensor: every kind, value, count and length in it is arbitrary.
#pragma once
#include "leaf.h"
#include <set>
#include <complex>
#include <zerialize/zerialize.hpp>
using namespace zerialize;
struct TDoc {
    int rk; uint64_t rn;                 // the root: kind, number of elements
    int dk; uint64_t dv;                 // element 0 (dtype): kind, value
    int sk; uint64_t sn;                 // element 1 (shape): kind, rank
    int bk; const uint8_t* p; size_t n;  // element 2 (data): kind, bytes
    const uint64_t* dims = nullptr; const int* kinds = nullptr;   // element 1's elements, or any when null
    int dimk(uint64_t i) const { if (kinds) return kinds[i]; return (int)(zv_uf1("dimk", i) & 3) + 1; }   // 1: bool, 2: signed, 3: unsigned, 4: double
    uint64_t dim(uint64_t i) const { if (dims) return dims[i]; uint64_t v = zv_uf1("dim", i); return zv_symbolic() ? v : v % 4 ? v % 4 : v >> (v >> 4) % 64; }
};
enum { TK_NULL, TK_BOOL, TK_INT, TK_UINT, TK_DBL, TK_STR, TK_BIN, TK_ARR, TK_MAP };
struct TR {
    static constexpr bool owning = false;
    const TDoc* d; int at; uint64_t i;   // at: 0 root, 1 dtype, 2 shape, 3 data, 4 a dimension, 5 anything else
    int k() const { switch (at) { case 0: return d->rk; case 1: return d->dk; case 2: return d->sk; case 3: return d->bk; case 4: return d->dimk(i); default: return TK_NULL; } }
    uint64_t num() const { return at == 1 ? d->dv : at == 4 ? d->dim(i) : zv_uf1("junkv", i); }
    void need(bool c) const { if (!c) throw DeserializationError("kind"); }
    bool isNull() const { return k() == TK_NULL; } bool isBool() const { return k() == TK_BOOL; } bool isInt() const { return k() == TK_INT; } bool isUInt() const { return k() == TK_UINT; }
    bool isFloat() const { return k() == TK_DBL; } bool isString() const { return k() == TK_STR; } bool isBlob() const { return k() == TK_BIN; } bool isArray() const { return k() == TK_ARR; } bool isMap() const { return k() == TK_MAP; }
    bool asBool() const { need(isBool()); return num() & 1; }
    int64_t asInt64() const { need(isInt() || isUInt()); if (isUInt()) need((int64_t)num() >= 0); return (int64_t)num(); }
    uint64_t asUInt64() const { need(isInt() || isUInt()); if (isInt()) need((int64_t)num() >= 0); return num(); }
    double asDouble() const { need(isFloat()); return std::bit_cast<double>(num()); } float asFloat() const { return (float)asDouble(); }
    template <class T> T narrow() const { if constexpr (std::is_signed_v<T>) { int64_t v = asInt64(); need(v == (T)v); return (T)v; } else { uint64_t v = asUInt64(); need(v == (T)v); return (T)v; } }
    int8_t asInt8() const { return narrow<int8_t>(); } int16_t asInt16() const { return narrow<int16_t>(); } int32_t asInt32() const { return narrow<int32_t>(); }
    uint8_t asUInt8() const { return narrow<uint8_t>(); } uint16_t asUInt16() const { return narrow<uint16_t>(); } uint32_t asUInt32() const { return narrow<uint32_t>(); }
    std::string_view asStringView() const { need(isString()); return "s"; } std::string asString() const { need(isString()); return "s"; }
    std::span<const std::byte> asBlob() const { need(isBlob() && at == 3); return {(const std::byte*)d->p, d->n}; }
    std::set<std::string_view> mapKeys() const { need(false); return {}; } bool contains(std::string_view) const { return false; }
    size_t arraySize() const { need(isArray()); return at == 0 ? d->rn : at == 2 ? d->sn : 0; }
    TR operator[](size_t j) const { need(isArray() && j < arraySize()); return at == 0 ? TR{d, j < 3 ? (int)j + 1 : 5, j} : TR{d, 4, j}; }
    TR operator[](std::string_view) const { need(false); return *this; }
};
// the same document through a protocol whose blobs are owning vectors
struct TRO : TR {
    TRO(const TDoc* d, int at, uint64_t i) : TR{d, at, i} {} TRO(TR t) : TR(t) {}
    static constexpr bool owning = true;
    std::vector<std::byte> asBlob() const { auto s = TR::asBlob(); return {s.begin(), s.end()}; }
    TRO operator[](size_t j) const { return TR::operator[](j); } TRO operator[](std::string_view k) const { return TR::operator[](k); }
};
