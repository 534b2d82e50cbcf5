// C09, xtensor: asXTensorView of any document yields a consistent tensor or throws DeserializationError.
// ZV_CONTRACT std::__cxx11::to_string(unsigned long) = ZC_to_string_m
// ZV_CONTRACT std::__cxx11::to_string(int) = ZC_to_string_i
#include "tensor.h"
#include <zerialize/tensor/xtensor.hpp>
#include "tcheck.h"
template <class T, int D, class V> static void xten(uint64_t lo, uint64_t hi) {
    Space s; TDoc d = any_tensor<T>(s, hi - lo); d.sn += lo; uint64_t r = d.sn;
    bool ok = fits<T>(d, D < 0 ? r : D) && bytes_match<T>(d, r);
    try {
        auto v = xtensor::asXTensorView<T, D>(V{&d, 0, 0});
        zv_assert(ok, "only a document whose dtype, rank, extents and data size fit is accepted");
        zv_assert(v.rank() == r && v.shape().size() == r, "the tensor has the stored rank");
        for (uint64_t i = 0; i < r; ++i) zv_assert(v.shape()[i] == d.dim(i), "the tensor has the stored extents");
        auto t = v.tensor(); zv_assert(t.dimension() == r, "the adaptor has the stored rank"); for (uint64_t i = 0; i < r; ++i) zv_assert(t.shape()[i] == d.dim(i), "the adaptor has the stored extents");
        content<T>(d, v.viewInfo(), t.data(), V::owning);
    } catch (const DeserializationError&) { zv_cover("rejected"); zv_assert(!ok || vast(d, r), "a document that fits is accepted"); }
}
ZV_HARNESS(r0) { xten<double, -1, TR>(0, 0); }
ZV_HARNESS(r1) { xten<double, -1, TR>(1, 1); }
ZV_HARNESS(r2) { xten<double, -1, TR>(2, 2); }
ZV_HARNESS(r3) { xten<double, -1, TR>(3, 3); }
ZV_HARNESS(i8) { xten<int8_t, 2, TR>(0, 3); }
ZV_HARNESS(own1) { xten<float, -1, TRO>(0, 1); }
ZV_HARNESS(own2) { xten<int64_t, 2, TRO>(1, 3); }
