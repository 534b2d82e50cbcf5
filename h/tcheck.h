// Specification shared by the tensor contracts.
#pragma once
#include "tcheck0.h"
struct Space { uint8_t* base; uint64_t off; };
template <class T> TDoc any_tensor(Space& s, uint64_t rank_max) {
    TDoc d{}; d.rk = (int)(zv_u64("rk") & 15); d.rn = zv_u64("rn"); d.dk = (int)(zv_u64("dk") & 15); d.dv = zv_u64("dv"); d.sk = (int)(zv_u64("sk") & 15); d.sn = zv_pick("rank", rank_max + 1); d.bk = (int)(zv_u64("bk") & 15);
    if (!zv_symbolic()) { if (zv_bool("likely")) { d.rk = d.sk = TK_ARR; d.bk = TK_BIN; d.dk = TK_INT; if (zv_bool("dt")) d.dv = (uint64_t)tensor_dtype_index<T>; d.rn = 3 + d.rn % 2; } }
    // the data: any length at any address, so at any alignment
    s.off = zv_symbolic() ? 0 : zv_u64("off") % 17;   // symbolic runs: the address of an object is arbitrary
    d.n = zv_u64("n"); if (d.n >> 40) zv_assume(false);
    if (!zv_symbolic()) { uint64_t c = sizeof(T); for (uint64_t i = 0; i < d.sn; ++i) c *= d.dim(i); if (zv_bool("sized") && c < 100000) d.n = c; }
    s.base = zv_bytes("data", s.off + d.n); d.p = s.base + s.off; return d;
}
template <class T> bool fits(const TDoc& d, uint64_t rank) {
    bool ok = (d.rk == TK_ARR) & (d.rn >= 3) & (d.dk == TK_INT) & (d.dv == (uint64_t)(int64_t)tensor_dtype_index<T>) & (d.sk == TK_ARR) & (d.bk == TK_BIN) & (d.sn == rank);
    for (uint64_t i = 0; i < rank; ++i) ok = ok & ((d.dimk(i) == TK_INT) | (d.dimk(i) == TK_UINT)) & (d.dim(i) <= 0xffffffffu);
    return ok;
}
// prod(dims) * sizeof(T) == stored bytes, without wrapping
template <class T> bool bytes_match(const TDoc& d, uint64_t rank) {
    // n < 2^40, so any partial product of 2^40 or more either meets a zero extent later or cannot match
    uint64_t acc = 1; bool big = false, zero = false;
    for (uint64_t i = 0; i < rank; ++i) { uint64_t x = (uint32_t)d.dim(i); zero = zero | (x == 0); unsigned __int128 m = (unsigned __int128)acc * x; big = big | ((m >> 40) != 0); acc = (uint64_t)m & ((1ull << 40) - 1); }
    return zero ? d.n == 0 : !big & (acc * sizeof(T) == d.n);
}
// an empty tensor whose other extents multiply to 2^40 or more may be refused
inline bool vast(const TDoc& d, uint64_t rank) {
    uint64_t acc = 1; bool big = false, zero = false;
    for (uint64_t i = 0; i < rank; ++i) { uint64_t x = (uint32_t)d.dim(i); zero = zero | (x == 0); unsigned __int128 m = (unsigned __int128)acc * (x ? x : 1); big = big | ((m >> 40) != 0); acc = (uint64_t)m & ((1ull << 40) - 1); }
    return zero & big;
}
template <class T, class I> void content(const TDoc& d, const I& info, const T* data, bool owning) {
    zv_cover("accepted");
    zv_assert(info.byte_size == d.n, "the byte size reported is the size stored");
    if (info.zero_copy) { zv_assert(!owning, "owning data is never viewed"); zv_assert((const uint8_t*)data == d.p, "a zero-copy tensor is the stored data"); zv_assert((uint64_t)data % alignof(T) == 0, "a zero-copy tensor is aligned"); zv_cover("viewed"); }
    else if (d.n) {
        zv_assert(zv_off(data, d.p, d.n) == UINT64_MAX, "a copied tensor does not live in the document");
        zv_assert(zv_live(data, d.n), "a copied tensor has room for its elements"); same_bytes(data, d.p, d.n, "j", "a copied tensor has the stored elements"); zv_cover("copied");
    }
}
