// C10, Eigen: a matrix serialized and decoded again is the same matrix, and says truthfully where its elements live.
// ZV_CONTRACT std::__cxx11::to_string(unsigned long) = ZC_to_string_m
// ZV_CONTRACT std::__cxx11::to_string(int) = ZC_to_string_i
#include "trec.h"
#include <zerialize/tensor/eigen.hpp>
#include "tcheck.h"
template <class T, int R, int C, int O, class V> static void mat(uint64_t r, uint64_t c) {
    using M = Eigen::Matrix<T, R, C, O>;
    M m; if constexpr (R < 0 || C < 0) m.resize((Eigen::Index)r, (Eigen::Index)c);
    uint64_t n = r * c * sizeof(T); auto* src = zv_bytes("elems", n); if (n) memcpy((void*)m.data(), src, n);
    TRec w; w.pre = zv_pick("pre", 2); Eigen::serialize(m, w); TDoc d = w.doc();
    auto v = eigen::asEigenMatrixView<T, R, C, false, O>(V{&d, 0, 0});
    zv_assert(v.rows() == r && v.cols() == c, "the shape survives");
    auto p = v.map(); zv_assert((uint64_t)p.rows() == r && (uint64_t)p.cols() == c, "the shape survives");
    const T* at = p.data();
    zv_assert(v.viewInfo().zero_copy == (n != 0 && zv_off(at, w.copy, n) != UINT64_MAX) || n == 0, "zero-copy exactly when the elements live in the document");
    zv_assert(!v.viewInfo().zero_copy || (uint64_t)at % alignof(T) == 0, "a zero-copy tensor is aligned");
    zv_assert(v.viewInfo().byte_size == n && v.viewInfo().required_alignment == alignof(T), "size and alignment are reported");
    if (r && c) { uint64_t i = zv_u64("i"), j = zv_u64("k"); if (i < r && j < c) {
        T e = p((Eigen::Index)i, (Eigen::Index)j), o = m((Eigen::Index)i, (Eigen::Index)j); uint64_t b = zv_pick("byte", sizeof(T));
        zv_assert(((const uint8_t*)&e)[b] == ((const uint8_t*)&o)[b], "elements keep their bits at their coordinates");
        zv_cover("element"); } }
    bool z = v.viewInfo().zero_copy; auto own = v.matrix();
    if (z) zv_cover("viewed"); else zv_cover("copied");
    w.gone();
    if (!z) same_bytes(at, src, n, "j", "a copied tensor outlives the document");
    zv_assert((uint64_t)own.rows() == r && (uint64_t)own.cols() == c, "the shape survives"); same_bytes(own.data(), src, n, "j2", "an owning matrix outlives the document");
}
// any extents: the product stays below 2^40 bytes
template <class T, int O, class V> static void any_size() { uint64_t r = zv_u32("r"), c = zv_u32("c"); if (!zv_symbolic()) { r %= 9; c %= 9; } unsigned __int128 m = (unsigned __int128)r * c; zv_assume((m >> 36) == 0); mat<T, Eigen::Dynamic, Eigen::Dynamic, O, V>(r, c); }
ZV_HARNESS(dbl) { any_size<double, Eigen::ColMajor, TR>(); }
ZV_HARNESS(i8) { any_size<int8_t, Eigen::ColMajor, TR>(); }
ZV_HARNESS(row) { any_size<uint16_t, Eigen::RowMajor, TR>(); }
ZV_HARNESS(own) { any_size<float, Eigen::ColMajor, TRO>(); }
ZV_HARNESS(fixed) { mat<int32_t, 2, 3, Eigen::ColMajor, TR>(2, 3); }
ZV_HARNESS(fixed_row) { mat<std::complex<float>, 2, 2, Eigen::RowMajor, TR>(2, 2); }
ZV_HARNESS(fixed_own) { mat<uint64_t, 3, 1, Eigen::ColMajor, TRO>(3, 1); }
ZV_HARNESS(cols) { uint64_t r = zv_u32("r"); if (!zv_symbolic()) r %= 9; mat<std::complex<double>, Eigen::Dynamic, 2, Eigen::ColMajor, TR>(r, 2); }
// an extent beyond 32 bits is refused
ZV_HARNESS(huge) { int32_t x; (void)x; Eigen::Matrix<int8_t, -1, -1> m; uint64_t r = zv_u64("r"); if (!zv_symbolic()) r %= 1 << 20; zv_assume(r < 1ull << 38); bool row = zv_bool("row"); if (row) m.resize(1, (Eigen::Index)r); else m.resize((Eigen::Index)r, 1);
    TRec w; try { Eigen::serialize(m, w); zv_cover("fits"); TDoc d = w.doc(); zv_assert(r >> 32 == 0, "an extent the format cannot hold is refused"); zv_assert(d.dim(row ? 1 : 0) == r, "an extent is stored in full"); } catch (const SerializationError&) { zv_assert(r >> 32 != 0, "only an extent beyond 32 bits is refused"); zv_cover("refused"); } }
