// C09, Eigen: asEigenMatrixView of any document yields a consistent matrix or throws DeserializationError.
// ZV_CONTRACT std::__cxx11::to_string(unsigned long) = ZC_to_string_m
// ZV_CONTRACT std::__cxx11::to_string(int) = ZC_to_string_i
#include "tensor.h"
#include <zerialize/tensor/eigen.hpp>
#include "tcheck.h"
template <class T, int R, int C, class V> static void eig(uint64_t rank_max) {
    Space s; TDoc d = any_tensor<T>(s, rank_max); bool ok = fits<T>(d, 2) && (R < 0 || d.dim(0) == (uint64_t)R) && (C < 0 || d.dim(1) == (uint64_t)C) && bytes_match<T>(d, 2);
    try {
        auto v = eigen::asEigenMatrixView<T, R, C>(V{&d, 0, 0});
        zv_assert(ok, "only a document whose dtype, rank, extents and data size fit is accepted");
        zv_assert(v.rows() == d.dim(0) && v.cols() == d.dim(1), "the matrix has the stored extents");
        auto m = v.map(); zv_assert((uint64_t)m.rows() == d.dim(0) && (uint64_t)m.cols() == d.dim(1), "the map has the stored extents");
        content<T>(d, v.viewInfo(), m.data(), V::owning);
    } catch (const DeserializationError&) { zv_cover("rejected"); zv_assert(!ok, "a document that fits is accepted"); }
}
ZV_HARNESS(dbl) { eig<double, -1, -1, TR>(3); }
ZV_HARNESS(i8) { eig<int8_t, -1, -1, TR>(3); }
ZV_HARNESS(fixed) { eig<int32_t, 2, 3, TR>(3); }
ZV_HARNESS(rows) { eig<float, 3, -1, TR>(3); }
ZV_HARNESS(cols) { eig<uint16_t, -1, 2, TR>(3); }
ZV_HARNESS(cplx) { eig<std::complex<double>, -1, -1, TR>(3); }
ZV_HARNESS(own) { eig<double, -1, -1, TRO>(3); }
ZV_HARNESS(own_fixed) { eig<int32_t, 2, 2, TRO>(3); }
