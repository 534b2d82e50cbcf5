// C10, xtensor: a tensor serialized and decoded again is the same tensor, and says truthfully where its elements live.
// ZV_CONTRACT std::__cxx11::to_string(unsigned long) = ZC_to_string_m
// ZV_CONTRACT std::__cxx11::to_string(int) = ZC_to_string_i
#include "trec.h"
#include <zerialize/tensor/xtensor.hpp>
#include <xtensor/xview.hpp>
#include <xtensor/xstrided_view.hpp>
#include "tcheck.h"
// t holds prod(sh) elements; at(k) reads the element at row-major rank k of the expression
template <class T, class V, int D, class X, class F> static void trip(const X& t, const std::vector<uint64_t>& sh, uint64_t count, F elem) {
    uint64_t n = count * sizeof(T);
    TRec w; w.pre = zv_pick("pre", 2); xt::serialize(t, w); TDoc d = w.doc();
    auto v = xtensor::asXTensorView<T, D>(V{&d, 0, 0});
    zv_assert(v.rank() == sh.size() && v.shape().size() == sh.size(), "the rank survives");
    auto p = v.tensor(); zv_assert(p.dimension() == sh.size() && p.size() == count, "the shape survives");
    for (size_t i = 0; i < sh.size(); ++i) zv_assert(v.shape()[i] == sh[i] && p.shape()[i] == sh[i], "the shape survives");
    const T* at = p.data();
    zv_assert(v.viewInfo().zero_copy == (n != 0 && zv_off(at, w.copy, n) != UINT64_MAX) || n == 0, "zero-copy exactly when the elements live in the document");
    zv_assert(!v.viewInfo().zero_copy || (uint64_t)at % alignof(T) == 0, "a zero-copy tensor is aligned");
    zv_assert(v.viewInfo().byte_size == n && v.viewInfo().required_alignment == alignof(T), "size and alignment are reported");
    auto same = [&](const T& a, const T& b, const char* l) { uint64_t k = zv_pick("byte", sizeof(T)); zv_assert(((const uint8_t*)&a)[k] == ((const uint8_t*)&b)[k], l); };
    bool z = v.viewInfo().zero_copy; auto own = v.array(); zv_assert(own.dimension() == sh.size() && own.size() == count, "the shape survives");
    if (z) zv_cover("viewed"); else zv_cover("copied");
    switch (zv_pick("what", 3)) {
    case 0: elem(p, [&](const T& a, const T& b) { same(a, b, "elements keep their bits at their coordinates"); }); break;
    case 1: if (!z) { w.gone(); elem(p, [&](const T& a, const T& b) { same(a, b, "a copied tensor outlives the document"); }); } break;
    default: w.gone(); elem(own, [&](const T& a, const T& b) { same(a, b, "an owning array outlives the document"); });
    }
}
template <class A> static void fill(A& a, uint64_t n) { auto* src = zv_bytes("elems", n); if (n) memcpy((void*)a.data(), src, n); }
template <class T, class V> static void r1() {
    uint64_t c = zv_u32("c"); if (!zv_symbolic()) c %= 40; auto a = xt::xarray<T>::from_shape({c}); fill(a, c * sizeof(T));
    trip<T, V, 1>(a, {c}, c, [&](auto& p, auto f) { uint64_t i = zv_u64("i"); if (i < c) { f(p(i), a(i)); zv_cover("element"); } });
}
template <class T, class V, int D> static void r2(auto& a, uint64_t r, uint64_t c) {
    trip<T, V, D>(a, {r, c}, r * c, [&](auto& p, auto f) { uint64_t i = zv_u64("i"), j = zv_u64("k"); if (i < r && j < c) { f(p(i, j), a(i, j)); zv_cover("element"); } });
}
ZV_HARNESS(v1) { r1<double, TR>(); }
ZV_HARNESS(v1i) { r1<int16_t, TR>(); }
ZV_HARNESS(v1own) { r1<uint32_t, TRO>(); }
ZV_HARNESS(v0) { xt::xarray<float> a = xt::xarray<float>::from_shape(std::vector<size_t>{}); fill(a, 4); trip<float, TR, 0>(a, {}, 1, [&](auto& p, auto f) { f(p(), a()); zv_cover("element"); }); }
static void rc(uint64_t& r, uint64_t& c) { r = zv_u32("r"); c = zv_u32("c"); if (!zv_symbolic()) { r %= 9; c %= 9; } unsigned __int128 m = (unsigned __int128)r * c; zv_assume((m >> 36) == 0); }
ZV_HARNESS(m2) { uint64_t r, c; rc(r, c); auto a = xt::xarray<int32_t>::from_shape({r, c}); fill(a, r * c * 4); r2<int32_t, TR, 2>(a, r, c); }
ZV_HARNESS(m2s) { uint64_t r, c; rc(r, c); auto a = xt::xtensor<uint8_t, 2>::from_shape({r, c}); fill(a, r * c); r2<uint8_t, TR, -1>(a, r, c); }
// other layouts, at selected shapes: what counts is the element at each coordinate, not the storage
template <class T, class V, int D, class X> static void other(const X& a, uint64_t r, uint64_t c) {
    trip<T, V, D>(a, {r, c}, r * c, [&](auto& p, auto f) { uint64_t i = zv_pick("i", r), j = zv_pick("k", c); f(p(i, j), a(i, j)); zv_cover("element"); });
}
ZV_HARNESS(colmajor) { auto a = xt::xarray<int32_t, xt::layout_type::column_major>::from_shape({2, 3}); fill(a, 24); other<int32_t, TR, 2>(a, 2, 3); }
ZV_HARNESS(colmajor_fixed) { auto a = xt::xtensor<uint16_t, 2, xt::layout_type::column_major>::from_shape({3, 2}); fill(a, 12); other<uint16_t, TR, 2>(a, 3, 2); }
ZV_HARNESS(rank3) { auto a = xt::xarray<int16_t>::from_shape({2, 1, 3}); fill(a, 12);
    trip<int16_t, TR, 3>(a, {2, 1, 3}, 6, [&](auto& p, auto f) { uint64_t i = zv_pick("i", 2), k = zv_pick("k", 3); f(p(i, 0, k), a(i, 0, k)); zv_cover("element"); }); }
ZV_HARNESS(empty2) { auto a = xt::xarray<double>::from_shape({zv_pick("r", 3), 0}); trip<double, TR, 2>(a, {a.shape()[0], 0}, 0, [&](auto&, auto) {}); }
ZV_HARNESS(huge) { uint64_t r = zv_u64("r"); if (!zv_symbolic()) r %= 1 << 20; zv_assume(r < 1ull << 38); auto a = xt::xarray<int8_t>::from_shape({r});
    TRec w; try { xt::serialize(a, w); zv_cover("fits"); TDoc d = w.doc(); zv_assert(r >> 32 == 0, "an extent the format cannot hold is refused"); zv_assert(d.dim(0) == r, "an extent is stored in full"); } catch (const SerializationError&) { zv_assert(r >> 32 != 0, "only an extent beyond 32 bits is refused"); zv_cover("refused"); } }
ZV_HARNESS(view) { auto a = xt::xtensor<int32_t, 2>::from_shape({3, 3}); fill(a, 36); auto v = xt::view(a, xt::range(1, 3), xt::range(0, 2)); other<int32_t, TR, 2>(v, 2, 2); }
