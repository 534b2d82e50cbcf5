// C17 contracts: a reader that owns its bytes survives copy, move, assignment and the end of its source.
#pragma once
#include "doc.h"
#include <optional>
using namespace zerialize;
using D = typename P::Deserializer;
template <class F> static std::vector<uint8_t> doc(F write) {
    typename P::RootSerializer rs; typename P::Serializer w(rs);
    write(w);
    return rs.finish().to_vector_copy();
}
static std::vector<uint8_t> other() { return doc([](auto& w) { w.begin_array(2); w.string("another document, of another size"); w.int64(42); w.end_array(); }); }
static D pass(D d) { return d; }
static D make(std::vector<uint8_t> v) { D d(std::move(v)); return d; }
// applies one operation to a reader of bytes; the reader returned by f's argument must still read the document
template <class F, class D = ::D> static void after(int op, std::vector<uint8_t> bytes, F f) {
    switch (op) {
    case 0: { std::optional<D> a; { auto src = bytes; a.emplace(src); } f(*a); break; }                                  // copies the vector given
    case 1: { D a(std::move(bytes)); f(a); break; }                                                                      // takes the vector over
    case 2: { std::optional<D> b; { D a(std::move(bytes)); b.emplace(a); } f(*b); break; }                               // copy, source gone
    case 3: { std::optional<D> b; { D a(std::move(bytes)); b.emplace(std::move(a)); } f(*b); break; }                    // move, source gone
    case 4: { D b(other()); { D a(std::move(bytes)); b = a; } f(b); break; }                                             // copy-assign over another
    case 5: { D b(other()); { D a(std::move(bytes)); b = std::move(a); } f(b); break; }                                  // move-assign over another
    case 6: { D a(std::move(bytes)); D b(a); a = D(other()); f(b); break; }                                              // source overwritten
    case 7: { D a(std::move(bytes)); { D b(a); b = D(other()); } f(a); break; }                                          // copy overwritten and gone
    case 8: { D a(std::move(bytes)); D* p = &a; a = *p; f(a); break; }                                                   // self copy-assignment
    case 9: { D a = make(std::move(bytes)); D b = pass(a); { D c = pass(std::move(a)); } f(b); break; }                  // returned, passed by value
    case 10: if constexpr (std::is_default_constructible_v<D>) { D a; { D b(std::move(bytes)); a = b; D c(std::move(b)); } f(a); } break;                                   // assigned to a default reader
    case 11: { std::vector<D> v; { D a(std::move(bytes)); v.push_back(a); v.push_back(D(other())); v.push_back(std::move(a)); } f(v[0]); f(v[2]); break; }  // in a growing vector
    }
    zv_cover("read after");
}
static constexpr int OPS = 12;
static Leaf value(int kind) {
    if constexpr (P::AnyLen) return any_leaf(kind, "v", "n", "s", UINT32_MAX / 4);
    else { if (kind < K_STR) return any_leaf(kind); static constexpr size_t lens[] = {0, 5, 40}; Leaf l{}; l.kind = kind; l.n = lens[zv_pick("n", 3)]; l.p = zv_bytes("s", l.n); return l; }
}
static void root(int kind) { Leaf l = value(kind); after((int)zv_pick("op", OPS), doc([&](auto& w) { put(w, l); }), [&](const D& d) { expect<P>(d, l); }); }
ZV_HARNESS(scalar) { root(K_BOOL + (int)zv_pick("kind", 4)); }
ZV_HARNESS(str) { root(K_STR); }
ZV_HARNESS(bin) { root(K_BIN); }
ZV_HARNESS(nested) {
    Leaf l = value(K_INT), m = value(K_UINT); if (!P::AnyLen) m.u = 1000, l.i = -300;
    after((int)zv_pick("op", OPS), doc([&](auto& w) { w.begin_array(2); put(w, l); w.begin_map(1); w.key("key"); put(w, m); w.end_map(); w.end_array(); }),
          [&](const D& d) { zv_assert(d.isArray() && d.arraySize() == 2, "the document is the same array"); expect<P>(d[0], l); expect<P>(d[1]["key"], m); });
}
#ifndef ZV_SYMBOLIC
ZV_EXPLORE(documents) { Node n = any_document<P>(); after((int)zv_pick("op", OPS), doc([&](auto& w) { put(w, n); }), [&](const D& d) { expect<P>(d, n); }); }
// histories of copies and moves over four readers of different documents
ZV_EXPLORE(history) {
    Node n[4]; std::optional<D> r[4]; int holds[4];   // which document reader i must read (-1: moved from)
    for (int i = 0; i < 4; ++i) { n[i] = any_document<P>(1); holds[i] = i; r[i].emplace(doc([&](auto& w) { put(w, n[i]); })); }
    for (int s = 0, k = (int)zv_pick("steps", 12); s < k; ++s) {
        int a = (int)zv_pick("a", 4), b = (int)zv_pick("b", 4);
        switch (zv_pick("op", 5)) {
        case 0: if (holds[b] >= 0 && r[a]) { *r[a] = *r[b]; holds[a] = holds[b]; } break;
        case 1: if (a != b && holds[b] >= 0 && r[a]) { *r[a] = std::move(*r[b]); holds[a] = holds[b]; holds[b] = -1; } break;
        case 2: if (a != b && holds[b] >= 0) { r[a].emplace(*r[b]); holds[a] = holds[b]; } break;
        case 3: if (a != b && holds[b] >= 0) { r[a].emplace(std::move(*r[b])); holds[a] = holds[b]; holds[b] = -1; } break;
        default: if (holds[a] == -1) r[a].emplace(doc([&](auto& w) { put(w, n[b]); })), holds[a] = b;
        }
        for (int i = 0; i < 4; ++i) if (holds[i] >= 0) expect<P>(*r[i], n[holds[i]]);
    }
}
#endif
