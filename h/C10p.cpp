// C10 through the concrete formats: one small matrix, any contents, the document at any alignment.
// ZV_CONTRACT std::__cxx11::to_string(unsigned long) = ZC_to_string_m
// ZV_CONTRACT std::__cxx11::to_string(int) = ZC_to_string_i
#define ZV_ZERA
#define ZV_MSGPACK
#define ZV_FLEX
#include "leaf.h"
#include "proto.h"
#include <complex>
#include <zerialize/tensor/eigen.hpp>
#include "tcheck0.h"
using namespace zerialize;
template <class P, class T> static void small() {
    Eigen::Matrix<T, 2, 1> m; auto* src = zv_bytes("elems", 2 * sizeof(T)); memcpy((void*)m.data(), src, 2 * sizeof(T));
    typename P::RootSerializer rs; typename P::Serializer w(rs); Eigen::serialize(m, w); ZBuffer z = rs.finish();
    // the document at any alignment
    size_t off = zv_pick("off", 2); auto doc = std::make_unique<uint8_t[]>(z.size() + off); memcpy(doc.get() + off, z.data(), z.size());
    typename P::Deserializer d{std::span<const uint8_t>(doc.get() + off, z.size())};
    auto v = eigen::asEigenMatrixView<T, Eigen::Dynamic, 1>(d);
    zv_assert(v.rows() == 2 && v.cols() == 1, "the shape survives"); auto p = v.map(); const T* at = p.data();
    bool in = zv_off(at, doc.get() + off, z.size()) != UINT64_MAX; zv_assert(v.viewInfo().zero_copy == in, "zero-copy exactly when the elements live in the document");
    zv_assert(!in || (uint64_t)at % alignof(T) == 0, "a zero-copy tensor is aligned"); if (in) zv_cover("viewed"); else zv_cover("copied");
    if (!in) doc.reset();
    zv_assert(memcmp(at, src, 2 * sizeof(T)) == 0, "elements keep their bits at their coordinates");
}
ZV_HARNESS(zera_d) { small<PZ, double>(); } ZV_HARNESS(zera_i) { small<PZ, int16_t>(); } ZV_HARNESS(msgpack_d) { small<PM, double>(); } ZV_HARNESS(msgpack_i) { small<PM, uint32_t>(); } ZV_HARNESS(flex_i) { small<PF, int32_t>(); }
