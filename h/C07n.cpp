// C07, whole documents through every pair of formats (native).
#define ZV_ZERA
#define ZV_MSGPACK
#define ZV_FLEX
#include "leaf.h"
#include "proto.h"
#include "doc.h"
#include <zerialize/translate.hpp>
#include <map>
using namespace zerialize;
template <class P> struct Loose : P { static constexpr bool SignExact = false; static constexpr bool CrossSign = true; static constexpr bool NulKeys = P::NulKeys; };
template <class A, class B> using To = std::conditional_t<A::SignExact && B::SignExact, B, Loose<B>>;
template <class S, class T> static void hop(const Node& n) {
    typename S::RootSerializer rs; typename S::Serializer w(rs); put(w, n); ZBuffer z = rs.finish();
    typename S::Deserializer d(z.buf());
    auto t = translate<T>(d);
    expect<To<S, T>>(t, n);
    auto back = translate<S>(t);
    expect<Loose<S>>(back, n);
}
static Node any() { ZvSrc s; int budget = 40; return any_node(s, 3, budget, false); }
ZV_EXPLORE(zm) { hop<PZ, PM>(any()); } ZV_EXPLORE(zf) { hop<PZ, PF>(any()); } ZV_EXPLORE(mz) { hop<PM, PZ>(any()); }
ZV_EXPLORE(mf) { hop<PM, PF>(any()); } ZV_EXPLORE(fz) { hop<PF, PZ>(any()); } ZV_EXPLORE(fm) { hop<PF, PM>(any()); }
ZV_EXPLORE(zz) { hop<PZ, PZ>(any()); } ZV_EXPLORE(mm) { hop<PM, PM>(any()); }
// keys with any bytes: carried, or refused by a format that cannot hold them
ZV_EXPLORE(keys) {
    ZvSrc s; int budget = 10; Node n = any_node(s, 2, budget, true);
    PZ::RootSerializer rs; PZ::Serializer w(rs); put(w, n); ZBuffer z = rs.finish(); PZ::Deserializer d(z.buf());
    switch (zv_pick("to", 3)) {
    case 0: expect<Loose<PM>>(translate<PM>(d), n); break;
    case 1: expect<PZ>(translate<PZ>(d), n); break;
    default: { struct Has { static bool nul(const Node& x) { for (auto& k : x.keys) if (k.find('\0') != std::string::npos) return true; for (auto& c : x.kids) if (nul(c)) return true; return false; } };
        bool bad = Has::nul(n), thr = false; std::optional<PF::Deserializer> f;
        try { f.emplace(translate<PF>(d)); } catch (const SerializationError&) { thr = true; }
        zv_assert(thr == bad, "a key the format cannot hold is refused, any other carried"); if (!thr) expect<PF>(*f, n); } }
}
// any bytes: what the reader rejects makes the translation throw; otherwise both documents agree
struct Dup {};
template <class V> static uint64_t size_of(const V& v, int depth, uint64_t& budget) {   // full traversal; throws what the reader throws
    if (depth > 40 || budget == 0) throw Dup{}; --budget;
    if (v.isNull() || v.isBool()) { if (v.isBool()) v.asBool(); return 1; }
    if (v.isInt()) { v.asInt64(); return 1; } if (v.isUInt()) { v.asUInt64(); return 1; } if (v.isFloat()) { v.asDouble(); return 1; }
    if (v.isString()) { v.asStringView(); return 1; } if (v.isBlob()) { v.asBlob(); return 1; }
    uint64_t c = 1;
    if (v.isMap()) { std::set<std::string> seen; for (std::string_view k : v.mapKeys()) if (!seen.insert(std::string(k)).second) throw Dup{}; for (std::string_view k : v.mapKeys()) c += size_of(v[k], depth + 1, budget); return c; }
    if (v.isArray()) { size_t n = v.arraySize(); for (size_t i = 0; i < n; ++i) c += size_of(v[i], depth + 1, budget); return c; }
    throw DeserializationError("unsupported kind");
}
template <class V, class W> static void same(const V& a, const W& b) {
    if (a.isNull()) zv_assert(b.isNull(), "null stays null");
    else if (a.isBool()) zv_assert(b.isBool() && a.asBool() == b.asBool(), "a boolean keeps its value");
    else if (a.isInt()) zv_assert((b.isInt() && a.asInt64() == b.asInt64()) || (a.asInt64() >= 0 && b.isUInt() && b.asUInt64() == (uint64_t)a.asInt64()), "an integer keeps its value");
    else if (a.isUInt()) zv_assert((b.isUInt() && a.asUInt64() == b.asUInt64()) || (b.isInt() && b.asInt64() >= 0 && (uint64_t)b.asInt64() == a.asUInt64()), "an integer keeps its value");
    else if (a.isFloat()) { double x = a.asDouble(), y = b.asDouble(); zv_assert(b.isFloat() && ((x != x && y != y) || !memcmp(&x, &y, 8)), "a double keeps its bits"); }
    else if (a.isString()) zv_assert(b.isString() && a.asStringView() == b.asStringView(), "a string keeps its bytes");
    else if (a.isBlob()) { auto x = a.asBlob(); auto y = b.asBlob(); zv_assert(b.isBlob() && x.size() == y.size() && (!x.size() || !memcmp(x.data(), y.data(), x.size())), "binary keeps its bytes"); }
    else if (a.isMap()) { zv_assert(b.isMap(), "a map stays a map"); size_t n = 0, m = 0; for (std::string_view k : a.mapKeys()) { ++n; zv_assert(b.contains(k), "every key is carried"); same(a[k], b[k]); } for (auto k : b.mapKeys()) (void)k, ++m; zv_assert(n == m, "no entry is added"); }
    else { zv_assert(b.isArray() && a.arraySize() == b.arraySize(), "an array keeps its size"); for (size_t i = 0, n = a.arraySize(); i < n; ++i) same(a[i], b[i]); }
}
template <class S, class T> static void hostile() {
    auto buf = zv::any_doc(); std::optional<typename S::Deserializer> d;
    try { d.emplace(buf); } catch (const DeserializationError&) { return; }
    bool bad = false; uint64_t budget = 5000;
    try { size_of(*d, 0, budget); } catch (const DeserializationError&) { bad = true; } catch (const Dup&) { return; }
    std::optional<typename T::Deserializer> t; bool thr = false;
    try { t.emplace(translate<T>(*d)); } catch (const std::bad_alloc&) { if (!bad) throw; thr = true; } catch (const std::exception&) { thr = true; }
    zv_assert(thr == bad, "a translation succeeds exactly when the reader accepts the whole document");
    if (!thr) same(*d, *t);
}
static int g_src;
extern "C" void zv_corpus(uint64_t seed, std::vector<uint8_t>& out) { if (g_src) corpus<PM>(seed, out); else corpus<PZ>(seed, out); }
ZV_EXPLORE(any_zm) { g_src = 0; hostile<PZ, PM>(); }
ZV_EXPLORE(any_mz) { g_src = 1; hostile<PM, PZ>(); }
