// C10, tensors of any rank, layout and dtype through the concrete formats (native).
#define ZV_ZERA
#define ZV_MSGPACK
#define ZV_FLEX
#include "leaf.h"
#include "proto.h"
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
#include <xtensor/xview.hpp>
#include <xtensor/xstrided_view.hpp>
#include <optional>
using namespace zerialize;
// the document alone in a buffer at an arbitrary offset, next to a string of arbitrary length
template <class P, class F, class G> static void through(F write, G check) {
    std::string pad(zv_pick("pad", 20), 'p'); bool nest = zv_bool("nest");
    typename P::RootSerializer rs; typename P::Serializer w(rs);
    if (nest) { w.begin_map(2); w.key("a"); w.string(pad); w.key("t"); write(w); w.end_map(); } else write(w);
    ZBuffer z = rs.finish(); size_t off = zv_pick("off", 17);
    auto doc = std::make_unique<uint8_t[]>(z.size() + off); memcpy(doc.get() + off, z.data(), z.size());
    typename P::Deserializer d{std::span<const uint8_t>(doc.get() + off, z.size())};
    if (nest) check(d["t"], doc, z.size() + off); else check(d, doc, z.size() + off);
}
template <class T> static void bits(const T& a, const T& b, const char* l) { zv_assert(memcmp(&a, &b, sizeof(T)) == 0, l); }
template <class V> static void status(const V& v, const void* at, size_t n, const std::unique_ptr<uint8_t[]>& doc, size_t total, size_t align) {
    bool in = n && (const uint8_t*)at >= doc.get() && (const uint8_t*)at < doc.get() + total;
    zv_assert(n == 0 || v.viewInfo().zero_copy == in, "zero-copy exactly when the elements live in the document");
    zv_assert(!v.viewInfo().zero_copy || v.viewInfo().address % align == 0, "a zero-copy tensor is aligned");
    zv_assert(v.viewInfo().byte_size == n && v.viewInfo().required_alignment == align, "size and alignment are reported"); if (n) zv_cover(in ? "viewed" : "copied");
}
template <class P, class T, class X> static void xt_trip(const X& x) {
    xt::xarray<T> want = x;   // the elements by coordinates, in row-major order
    through<P>([&](auto& w) { xt::serialize(x, w); }, [&](const auto& d, auto& doc, size_t total) {
        auto v = xtensor::asXTensorView<T>(d); auto t = v.tensor(); status(v, t.data(), want.size() * sizeof(T), doc, total, alignof(T));
        auto own = xtensor::asXTensor<T>(d); bool z = v.viewInfo().zero_copy;
        auto same = [&](const auto& a, const char* l) { zv_assert(a.dimension() == want.dimension() && std::equal(a.shape().begin(), a.shape().end(), want.shape().begin()), "the shape survives"); auto i = want.template begin<xt::layout_type::row_major>(); for (auto j = a.template begin<xt::layout_type::row_major>(); j != a.template end<xt::layout_type::row_major>(); ++i, ++j) bits<T>(*j, *i, l); };
        zv_assert(v.rank() == want.dimension() && std::equal(v.shape().begin(), v.shape().end(), want.shape().begin()), "the shape survives");
        same(t, "elements keep their bits at their coordinates"); doc.reset(); if (!z) same(t, "a copied tensor outlives the document"); same(own, "an owning array outlives the document"); });
}
template <class T> static void content(T* p, size_t n) { auto* s = zv_bytes("elems", n * sizeof(T)); if (n) memcpy((void*)p, s, n * sizeof(T)); }
template <class P, class T, bool All = false> static void any_xt() {
    std::vector<size_t> sh(zv_pick("rank", 6)); for (auto& x : sh) { x = zv_pick("dim", 5); if (!x && zv_bool("nz")) x = 3; }
    if constexpr (All) switch (zv_pick("kind", 8)) {
    case 0: { auto a = xt::xarray<T, xt::layout_type::column_major>::from_shape(sh); content(a.data(), a.size()); xt_trip<P, T>(a); break; }
    case 1: { xt::xarray<T, xt::layout_type::dynamic> a; a.resize(sh, zv_bool("col") ? xt::layout_type::column_major : xt::layout_type::row_major); content(a.data(), a.size()); xt_trip<P, T>(a); break; }
    case 2: { auto a = xt::xtensor<T, 2>::from_shape({4, 3}); content(a.data(), 12); int lo = (int)zv_pick("lo", 3), hi = (int)zv_pick("hi", 3); xt_trip<P, T>(xt::view(a, xt::range(lo, 4), xt::range(0, hi))); break; }
    case 3: { auto a = xt::xarray<T>::from_shape({3, 4, 2}); content(a.data(), 24); xt_trip<P, T>(xt::view(a, (int)zv_pick("at", 3))); break; }
    case 4: { auto a = xt::xarray<T>::from_shape({4, 3}); content(a.data(), 12); xt_trip<P, T>(xt::transpose(a)); break; }
    case 5: { auto a = xt::xarray<T>::from_shape({4, 6}); content(a.data(), 24); xt_trip<P, T>(xt::strided_view(a, {xt::range(0, 4, 2), xt::range(1, 6, 2)})); break; }
    case 6: { std::vector<T> b(12); content(b.data(), 12); std::vector<size_t> s{3, 4}; xt_trip<P, T>(xt::adapt(b, s)); break; }
    default: break;
    }
    auto a = xt::xarray<T>::from_shape(sh); content(a.data(), a.size()); xt_trip<P, T>(a);
}
template <class P, class T, int R, int C, int O> static void eig(int r, int c) {
    Eigen::Matrix<T, R, C, O> m(r, c); content(m.data(), (size_t)r * c);
    through<P>([&](auto& w) { Eigen::serialize(m, w); }, [&](const auto& d, auto& doc, size_t total) {
        auto v = eigen::asEigenMatrixView<T, R, C, false, O>(d); auto p = v.map(); status(v, p.data(), m.size() * sizeof(T), doc, total, alignof(T));
        auto own = eigen::asEigenMatrix<T, R, C, false, O>(d); bool z = v.viewInfo().zero_copy;
        auto same = [&](const auto& a, const char* l) { zv_assert(a.rows() == r && a.cols() == c, "the shape survives"); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) bits<T>(a(i, j), m(i, j), l); };
        zv_assert((int)v.rows() == r && (int)v.cols() == c, "the shape survives");
        same(p, "elements keep their bits at their coordinates"); doc.reset(); if (!z) { same(v.map(), "a copied tensor outlives the document"); same(v.matrix(), "a copied tensor outlives the document"); } same(own, "an owning matrix outlives the document"); });
}
template <class P, class T, bool All = false> static void any_eig() {
    int r = (int)zv_pick("r", 6), c = (int)zv_pick("c", 6);
    if constexpr (All) switch (zv_pick("kind", 6)) {
    case 0: eig<P, T, 2, 3, Eigen::ColMajor>(2, 3); break; case 1: eig<P, T, 3, 4, Eigen::RowMajor>(3, 4); break; case 2: eig<P, T, Eigen::Dynamic, 3, Eigen::RowMajor>(r, 3); break;
    case 3: eig<P, T, 4, Eigen::Dynamic, Eigen::ColMajor>(4, c); break; case 4: eig<P, T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>(r, c); break; default: break; }
    eig<P, T, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>(r, c);
}
// the element types are shared out between the formats (the code that depends on them does not see the format)
template <class P, class... T> static void any_x() { uint64_t k = zv_pick("t", sizeof...(T)), i = 0; ((k == i++ ? any_xt<P, T>() : void()), ...); }
template <class P, class... T> static void any_e() { uint64_t k = zv_pick("t", sizeof...(T)), i = 0; ((k == i++ ? any_eig<P, T>() : void()), ...); }
ZV_EXPLORE(xt_zera) { any_x<PZ, int8_t, float, std::complex<double>, double>(); } ZV_EXPLORE(xt_msgpack) { any_x<PM, uint16_t, int64_t, xtl::half_float>(); } ZV_EXPLORE(xt_flex) { any_x<PF, int32_t, uint64_t, std::complex<float>>(); }
ZV_EXPLORE(xt_layouts) { any_xt<PM, double, true>(); }
ZV_EXPLORE(eigen_zera) { any_e<PZ, int8_t, uint64_t, std::complex<double>, double>(); } ZV_EXPLORE(eigen_msgpack) { any_e<PM, int16_t, float, uint8_t>(); } ZV_EXPLORE(eigen_flex) { any_e<PF, uint32_t, int64_t, std::complex<float>>(); }
ZV_EXPLORE(eigen_layouts) { any_eig<PM, int32_t, true>(); }
