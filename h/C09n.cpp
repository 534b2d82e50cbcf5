// C09, documents of the concrete formats, well formed, inconsistent and corrupted (native).
#define ZV_ZERA
#define ZV_MSGPACK
#define ZV_FLEX
#include "leaf.h"
#include "proto.h"
#include "doc.h"
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
#include <optional>
using namespace zerialize;
// what the document says, by its own accessors
struct Said { bool tensor = false; std::vector<uint64_t> dims; std::span<const std::byte> data; };
template <class V> static Said said(const V& d, int code) {
    Said s;
    if (!d.isArray() || d.arraySize() < 3) return s;
    auto t = d[0]; auto sh = d[1]; auto b = d[2];
    if (!t.isInt() || t.asInt64() != code || !sh.isArray() || !b.isBlob()) return s;
    for (size_t i = 0, n = sh.arraySize(); i < n; ++i) {
        auto e = sh[i]; uint64_t v;
        if (e.isUInt()) v = e.asUInt64(); else if (e.isInt() && e.asInt64() >= 0) v = (uint64_t)e.asInt64(); else return s;
        if (v > UINT32_MAX) return s; s.dims.push_back(v);
    }
    s.data = b.asBlob(); s.tensor = true; return s;
}
// bytes the elements take, nullopt when that is 2^62 or more (zero extents aside: then 0)
static std::optional<uint64_t> bytes_of(const std::vector<uint64_t>& dims, uint64_t w, bool& vast) {
    unsigned __int128 m = w; bool zero = false; vast = false;
    for (uint64_t x : dims) { if (!x) { zero = true; continue; } if (!vast) m *= x; vast = vast || (m >> 62) != 0; }
    if (zero) return 0; if (vast) return std::nullopt; return (uint64_t)m;
}
template <class T> static void touch(const T* p, const Said& s, const tensor::TensorViewInfo& i) {
    zv_assert(s.data.empty() || memcmp(p, s.data.data(), s.data.size()) == 0, "the elements are the stored bytes");
    zv_assert(i.byte_size == s.data.size(), "the byte size reported is the size stored");
    zv_assert(i.zero_copy == ((const void*)p == (const void*)s.data.data()) || s.data.empty(), "zero-copy exactly when the elements live in the document");
    zv_assert(!i.zero_copy || (uintptr_t)p % alignof(T) == 0, "a zero-copy tensor is aligned");
}
template <class T, class V> static void decode(const V& d) {
    Said s; bool bad = false;
    try { s = said(d, tensor_dtype_index<T>); } catch (const DeserializationError&) { bad = true; }
    bool vast = false; auto want = bytes_of(s.dims, sizeof(T), vast); bool ok = !bad && s.tensor && want && *want == s.data.size();
    try {
        auto v = xtensor::asXTensorView<T>(d);
        zv_assert(ok, "only a document whose dtype, rank, extents and data size fit is accepted");
        zv_assert(v.rank() == s.dims.size() && std::equal(s.dims.begin(), s.dims.end(), v.shape().begin(), v.shape().end()), "the tensor has the stored shape");
        auto t = v.tensor(); touch(t.data(), s, v.viewInfo()); uint64_t c = 0; for (auto it = t.begin(); it != t.end(); ++it) ++c; zv_assert(c * sizeof(T) == s.data.size(), "as many elements as stored");
        auto a = v.array(); zv_assert(a.size() == c && (!c || memcmp(a.data(), s.data.data(), s.data.size()) == 0), "the owning array has the stored elements"); zv_cover("accepted");
    } catch (const DeserializationError&) { zv_assert(!ok || vast, "a document that fits is accepted"); zv_cover("rejected"); }
    auto mat = [&](auto f, bool fit) {
        try {
            auto v = f();
            zv_assert(ok && fit, "only a document whose dtype, rank, extents and data size fit is accepted");
            auto m = v.map(); zv_assert(v.rows() == s.dims[0] && v.cols() == s.dims[1] && (uint64_t)m.rows() == s.dims[0] && (uint64_t)m.cols() == s.dims[1], "the matrix has the stored extents");
            touch(m.data(), s, v.viewInfo()); auto o = v.matrix(); zv_assert(s.data.empty() || memcmp(o.data(), s.data.data(), s.data.size()) == 0, "the owning matrix has the stored elements");
        } catch (const DeserializationError&) { zv_assert(!ok || !fit || vast, "a document that fits is accepted"); }
    };
    bool r2 = s.dims.size() == 2; uint64_t r = r2 ? s.dims[0] : 0, c = r2 ? s.dims[1] : 0;
    mat([&] { return eigen::asEigenMatrixView<T, Eigen::Dynamic, Eigen::Dynamic>(d); }, r2);
    mat([&] { return eigen::asEigenMatrixView<T, 2, 3>(d); }, r2 && r == 2 && c == 3);
    mat([&] { return eigen::asEigenMatrixView<T, 3, Eigen::Dynamic>(d); }, r2 && r == 3);
    mat([&] { return eigen::asEigenMatrixView<T, Eigen::Dynamic, 2>(d); }, r2 && c == 2);
    try { auto v = xtensor::asXTensorView<T, 3>(d); zv_assert(ok && s.dims.size() == 3, "only the rank asked for is accepted"); }
    catch (const DeserializationError&) { zv_assert(!ok || s.dims.size() != 3 || vast, "the rank asked for is accepted"); }
}
template <class S> struct TDraw { S& s; uint64_t dims[6]; int rank; int code; uint64_t n; bool uns;
    explicit TDraw(S& src) : s(src) {
        static const int codes[] = {0, 5, 2, 6, 3, 7, 10, 11, 12, 13, 14, 1, 4, -1, 8, 99}; static const int width[] = {1, 2, 4, 4, 8, 8, 4, 8, 8, 16, 2, 2, 1, 1, 1, 1};
        int ci = (int)s.pick("code", 16); code = codes[ci]; rank = (int)s.pick("rank", 7); if (s.pick("r2", 3)) rank = 2; uns = s.pick("uns", 2); uint64_t m = width[ci]; bool wild = !s.pick("wild", 4);
        for (int i = 0; i < rank; ++i) { static const uint64_t odd[] = {0, 1, 1ull << 31, UINT32_MAX, 1ull << 32, (1ull << 32) + 2, 1ull << 63, ~0ull, 1ull << 16, 1ull << 30, 3}; dims[i] = wild && s.pick("odd", 2) ? odd[s.pick("which", 11)] : s.pick("dim", 4); if (s.pick("nz", 2) && !dims[i]) dims[i] = 2; m *= dims[i]; }
        if (m > 4096) m = s.pick("n", 64); n = m; if (!s.pick("off", 6)) n += s.pick("by", 3) - 1; if (n > 5000) n = 0;
    }
    template <class W> void write(W& w, const uint8_t* p, size_t extra) { w.begin_array(3 + extra); w.int64(code); w.begin_array((size_t)rank); for (int i = 0; i < rank; ++i) if (uns) w.uint64(dims[i]); else w.int64((int64_t)dims[i]); w.end_array(); w.binary({(const std::byte*)p, n}); for (size_t i = 0; i < extra; ++i) w.null(); w.end_array(); }
};
template <class V> static void all(const V& d, int which) {
    switch (which) { case 0: decode<int8_t>(d); break; case 1: decode<uint16_t>(d); break; case 2: decode<int32_t>(d); break; case 3: decode<uint64_t>(d); break; case 4: decode<float>(d); break; case 5: decode<double>(d); break; case 6: decode<std::complex<double>>(d); break; default: decode<xtl::half_float>(d); }
}
template <class P> static void shaped() {
    ZvSrc s; TDraw<ZvSrc> t(s); auto* p = zv_bytes("data", t.n); std::string pad(zv_pick("pad", 9), 'x'); bool nest = zv_bool("nest");
    typename P::RootSerializer rs; typename P::Serializer w(rs); if (nest) { w.begin_array(2); w.string(pad); } t.write(w, p, zv_pick("extra", 4) == 3); if (nest) w.end_array(); ZBuffer z = rs.finish();
    static const int want[] = {0, 1, 2, 2, 2, 3, 4, 5, 6, 6, 7, 1, 0, 0, 0, 0}; static const int codes[] = {0, 5, 2, 6, 3, 7, 10, 11, 12, 13, 14, 1, 4, -1, 8, 99};
    int wh = 0; for (int i = 0; i < 16; ++i) if (codes[i] == t.code) wh = want[i]; if (!zv_pick("other", 8)) wh = (int)zv_pick("as", 8);
    typename P::Deserializer d(z.buf()); if (nest) all(d[1], wh); else all(d, wh);
}
ZV_EXPLORE(zera) { shaped<PZ>(); } ZV_EXPLORE(msgpack) { shaped<PM>(); } ZV_EXPLORE(flex) { shaped<PF>(); }
static int g_src;
template <class P> static void tcorpus(uint64_t seed, std::vector<uint8_t>& out) {
    LcgSrc s{seed, {}}; for (int i = 0; i < 4; ++i) s.r(); TDraw<LcgSrc> t(s); std::string b = s.bytes(t.n);
    typename P::RootSerializer rs; typename P::Serializer w(rs); t.write(w, (const uint8_t*)b.data(), 0); auto z = rs.finish(); out.assign(z.data(), z.data() + z.size());
}
extern "C" void zv_corpus(uint64_t seed, std::vector<uint8_t>& out) { if (g_src) tcorpus<PM>(seed, out); else tcorpus<PZ>(seed, out); }
template <class P> static void corrupted() { auto buf = zv::any_doc(); std::optional<typename P::Deserializer> d; int wh = (int)zv_pick("as", 8); try { d.emplace(buf); } catch (const DeserializationError&) { return; } all(*d, wh); }
ZV_EXPLORE(bad_zera) { g_src = 0; corrupted<PZ>(); } ZV_EXPLORE(bad_msgpack) { g_src = 1; corrupted<PM>(); }
