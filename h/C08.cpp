// C08: serialize(), the builders and dyn::Value issue exactly the events that describe the value.
#include "leaf.h"
#include "rbtree.h"
#include <zerialize/zerialize.hpp>
#include <zerialize/dynamic.hpp>
#include <zerialize/protocols/zera.hpp>
#include <optional>
using namespace zerialize;
// ZV_CONTRACT rec void zerialize::dyn::serialize<Rec>( = ZC_dyn_serialize
enum { E_NULL, E_BOOL, E_INT, E_UINT, E_DBL, E_STR, E_BIN, E_ARR, E_ENDA, E_MAP, E_ENDM, E_KEY, E_KIDS };
struct Ev { int k; uint64_t v = 0; const void* p = nullptr; size_t n = 0; };
// The writer: every event must be the one the value calls for next.  E_KIDS stands for n opaque children (with keys: K = 1).
struct Rec {
    Ev ev[24]; int len = 0, pos = 0; uint64_t i = 0; bool keyed = false;
    void leave() { if (pos < len && ev[pos].k == E_KIDS && i == ev[pos].n && !keyed) { ++pos; i = 0; } }
    Ev& next(int k, const char* l) { leave(); zv_assert(pos < len && ev[pos].k == k, l); if (!(pos < len)) zv_assume(false); return ev[pos++]; }
    void str(const Ev& e, const void* p, size_t n, const char* ll, const char* lb) { zv_assert(n == e.n, ll); same_bytes(p, (const uint8_t*)e.p, e.n, "j", lb); }
    void null() { next(E_NULL, "null is emitted where the value has null"); }
    void boolean(bool b) { auto& e = next(E_BOOL, "a boolean is emitted where the value has one"); zv_assert(b == bool(e.v), "the boolean keeps its value"); }
    void int64(int64_t v) { auto& e = next(E_INT, "a signed integer is emitted where the value has one"); zv_assert((uint64_t)v == e.v, "the signed integer keeps its value"); }
    void uint64(uint64_t v) { auto& e = next(E_UINT, "an unsigned integer is emitted where the value has one"); zv_assert(v == e.v, "the unsigned integer keeps its value"); }
    void double_(double v) { auto& e = next(E_DBL, "a double is emitted where the value has one"); zv_assert(std::bit_cast<uint64_t>(v) == e.v, "the double keeps its bits"); }
    void string(std::string_view s) { auto& e = next(E_STR, "a string is emitted where the value has one"); str(e, s.data(), s.size(), "the string keeps its length", "the string keeps its bytes"); }
    void binary(std::span<const std::byte> s) { auto& e = next(E_BIN, "binary is emitted where the value has it"); str(e, s.data(), s.size(), "the binary keeps its length", "the binary keeps its bytes"); }
    void begin_array(size_t n) { auto& e = next(E_ARR, "an array is opened where the value has one"); zv_assert(n == e.n, "the declared size is the number of elements"); }
    void end_array() { next(E_ENDA, "an array is closed exactly after its last element"); }
    void begin_map(size_t n) { auto& e = next(E_MAP, "a map is opened where the value has one"); zv_assert(n == e.n, "the declared size is the number of entries"); }
    void end_map() { next(E_ENDM, "a map is closed exactly after its last entry"); }
    void key(std::string_view s) {
        leave();
        if (pos < len && ev[pos].k == E_KIDS) {   // the key of the next opaque entry: the very characters the entry holds
            Ev& e = ev[pos]; zv_assert(e.v && !keyed && i < e.n, "a key is emitted for the next entry");
            const std::string& k = ((const std::pair<std::string, dyn::Value>*)e.p)[i].first;
            zv_assert((uint64_t)s.data() == (uint64_t)k.data() && s.size() == k.size(), "the key emitted is the key of the entry"); keyed = true; return;
        }
        auto& e = next(E_KEY, "a key is emitted where the value has one"); str(e, s.data(), s.size(), "the key keeps its length", "the key keeps its bytes");
    }
    Ev& kid() { zv_assert(pos < len && ev[pos].k == E_KIDS && i < ev[pos].n, "a child is emitted inside its container"); if (!(pos < len)) zv_assume(false); return ev[pos]; }
    void child(uint64_t id) { Ev& e = kid(); zv_assert(id == ((const uint64_t*)e.p)[i], "elements are emitted in order, each once"); ++i; }
    void child_at(const dyn::Value* v) {
        Ev& e = kid();
        if (e.v) { zv_assert(keyed, "a value follows its key"); zv_assert((uint64_t)v == (uint64_t)&((const std::pair<std::string, dyn::Value>*)e.p)[i].second, "the value after a key is the value of that entry"); }
        else zv_assert((uint64_t)v == (uint64_t)&((const dyn::Value*)e.p)[i], "elements are emitted in order, each once");
        keyed = false; ++i;
    }
    Rec& add(Ev e) { ev[len++] = e; return *this; }
    Rec& add(int k, uint64_t v) { return add(Ev{k, v}); }
    Rec& add(int k) { return add(Ev{k}); }
    Rec& str(int k, const void* p, size_t n) { return add(Ev{k, 0, p, n}); }
    Rec& lit(int k, const char* s) { return str(k, s, strlen(s)); }
    Rec& open(int k, size_t n) { return add(Ev{k, 0, nullptr, n}); }
    Rec& leaf(const Leaf& l) {
        switch (l.kind) {
        case K_NULL: return add(E_NULL); case K_BOOL: return add(E_BOOL, l.b); case K_INT: return add(E_INT, (uint64_t)l.i); case K_UINT: return add(E_UINT, l.u);
        case K_DBL: return add(E_DBL, l.dbits); case K_STR: return str(E_STR, l.p, l.n); default: return str(E_BIN, l.p, l.n);
        }
    }
    void done() { leave(); zv_assert(pos == len, "the whole value is emitted"); zv_cover("emitted"); }
};
// an element type whose own serialize is opaque: container overloads are proved for any element type
struct Item { uint64_t id; };
template <Writer W> void serialize(const Item& x, W& w) { w.child(x.id); }
extern "C" void ZC_dyn_serialize(const dyn::Value& v, Rec& w) { w.child_at(&v); }
template <class T> void emit(const T& x, Rec& w) { using zerialize::serialize; serialize(x, w); w.done(); }
// serialize<P>() of any protocol: the events go to the protocol's writer and finish() is called once, after them
static Rec* g_w; static int g_fin;
struct RP {
    static inline constexpr const char* Name = "rec";
    struct RootSerializer { ZBuffer finish() { zv_assert(g_w->pos == g_w->len, "finish() comes after every event"); ++g_fin; return ZBuffer(std::vector<uint8_t>{7}); } };
    struct Serializer {
        Rec* r; explicit Serializer(RootSerializer&) : r(g_w) {}
        void null() { r->null(); } void boolean(bool b) { r->boolean(b); } void int64(int64_t v) { r->int64(v); } void uint64(uint64_t v) { r->uint64(v); } void double_(double v) { r->double_(v); }
        void string(std::string_view s) { r->string(s); } void binary(std::span<const std::byte> s) { r->binary(s); } void key(std::string_view s) { r->key(s); }
        void begin_array(size_t n) { r->begin_array(n); } void end_array() { r->end_array(); } void begin_map(size_t n) { r->begin_map(n); } void end_map() { r->end_map(); }
        void child(uint64_t id) { r->child(id); }
    };
    using Deserializer = Zera::Deserializer;
};

#define SCALAR(name, T, U, K) { T v = (T)zv_u64("v"); Rec w; w.add(K, (uint64_t)(U)v); emit(v, w); }
ZV_HARNESS(scalar_int) {
    switch (zv_pick("type", 14)) {
    case 0: SCALAR(c, char, int64_t, E_INT) break;                 case 1: SCALAR(sc, signed char, int64_t, E_INT) break;
    case 2: SCALAR(uc, unsigned char, uint64_t, E_UINT) break;     case 3: SCALAR(s, short, int64_t, E_INT) break;
    case 4: SCALAR(us, unsigned short, uint64_t, E_UINT) break;    case 5: SCALAR(i, int, int64_t, E_INT) break;
    case 6: SCALAR(u, unsigned, uint64_t, E_UINT) break;           case 7: SCALAR(l, long, int64_t, E_INT) break;
    case 8: SCALAR(ul, unsigned long, uint64_t, E_UINT) break;     case 9: SCALAR(ll, long long, int64_t, E_INT) break;
    case 10: SCALAR(ull, unsigned long long, uint64_t, E_UINT) break;
    case 11: { bool b = zv_bool("b"); Rec w; w.add(E_BOOL, b); emit(b, w); break; }
    case 12: { Rec w; w.add(E_NULL); emit(nullptr, w); break; }
    default: { uint64_t b = zv_u64("v"); double d = std::bit_cast<double>(b); Rec w; w.add(E_DBL, b); emit(d, w); break; }
    }
}
ZV_HARNESS(scalar_float) { float f = std::bit_cast<float>(zv_u32("v")); double d = f; Rec w; w.add(E_DBL, std::bit_cast<uint64_t>(d)); emit(f, w); }
ZV_HARNESS(text) {
    size_t n = zv_u64("n"); Rec w;
    switch (zv_pick("type", 4)) {
    case 0: { const char* s = zv_cstr("s", n); w.str(E_STR, s, n); emit(s, w); break; }
    case 1: { auto p = zv_bytes("s", n); w.str(E_STR, p, n); emit(std::string_view((char*)p, n), w); break; }
    case 2: { auto p = zv_bytes("s", n); std::string s((char*)p, n); w.str(E_STR, p, n); emit(s, w); break; }
    default: { w.lit(E_STR, "lit"); emit("lit", w); break; }
    }
}
ZV_HARNESS(bytes) {
    size_t n = zv_u64("n"); auto p = (const std::byte*)zv_bytes("s", n); Rec w; w.str(E_BIN, p, n);
    switch (zv_pick("type", 2)) {
    case 0: { std::vector<std::byte> v(p, p + n); emit(v, w); break; }
    default: emit(std::span<const std::byte>(p, n), w);
    }
}
static std::vector<Item> items(const char* len, const char* name, size_t& n, const uint8_t*& p) { n = zv_u64(len); if (n >> 36) zv_assume(false); if (!zv_symbolic()) n %= 50; p = zv_bytes(name, n * 8); return std::vector<Item>((const Item*)p, (const Item*)p + n); }
static Rec& kids(Rec& w, size_t n, const void* p) { w.open(E_ARR, n); w.add(Ev{E_KIDS, 0, p, n}); return w.add(E_ENDA); }
ZV_HARNESS(vector) { size_t n; const uint8_t* p; auto v = items("n", "e", n, p); Rec w; kids(w, n, p); emit(v, w); }
ZV_HARNESS(init_list) {
    size_t n; const uint8_t* p; auto v = items("n", "e", n, p); Rec w; kids(w, n, p);
    std::initializer_list<Item> l(v.data(), n); zerialize::serialize(l, w); w.done();
}
template <size_t N> static void arr() { std::array<Item, N> a; uint64_t ids[N + 1]; for (size_t i = 0; i < N; ++i) a[i].id = ids[i] = zv_u64("e"); Rec w; kids(w, N, ids); emit(a, w); }
ZV_HARNESS(array) { switch (zv_pick("n", 4)) { case 0: arr<0>(); break; case 1: arr<1>(); break; case 2: arr<2>(); break; default: arr<5>(); } }
ZV_HARNESS(list) {
    size_t n = zv_pick("n", 4); uint64_t ids[4] = {zv_u64("a"), zv_u64("b"), zv_u64("c"), 0}; std::list<Item> l; for (size_t i = 0; i < n; ++i) l.push_back({ids[i]});
    Rec w; kids(w, n, ids); emit(l, w);
}
ZV_HARNESS(vector_int) {   // a real element type: vector<int32_t> of any length
    size_t n = zv_pick("n", 4); int32_t x[3]; Rec w; w.open(E_ARR, n); std::vector<int32_t> v;
    for (size_t i = 0; i < n; ++i) { v.push_back(x[i] = (int32_t)zv_u32("e")); w.add(E_INT, (uint64_t)(int64_t)x[i]); }
    w.add(E_ENDA); emit(v, w);
}
ZV_HARNESS(vector_nested) {
    size_t n, m; const uint8_t *p, *q; std::vector<std::vector<Item>> v; v.push_back(items("n", "e", n, p)); v.push_back(items("m", "f", m, q));
    Rec w; w.open(E_ARR, 2); kids(w, n, p); kids(w, m, q); w.add(E_ENDA); emit(v, w);
}
ZV_HARNESS(vector_str) {
    size_t n = zv_u64("n"); auto p = zv_bytes("s", n); std::vector<std::string> v; v.emplace_back((char*)p, n); v.emplace_back("x");
    Rec w; w.open(E_ARR, 2); w.str(E_STR, p, n); w.lit(E_STR, "x"); w.add(E_ENDA); emit(v, w);
}
ZV_HARNESS(map) {
    size_t n = zv_pick("n", 4); const char* ks[3] = {"", "ab", "b"}; uint64_t x[3]; std::map<std::string, int64_t> m; size_t o = zv_pick("order", 3);
    for (size_t i = 0; i < n; ++i) x[i] = zv_u64("v");
    for (size_t i = 0; i < n; ++i) { size_t j = (i + o) % n; m.emplace(ks[j], (int64_t)x[j]); }
    Rec w; w.open(E_MAP, n); for (size_t i = 0; i < n; ++i) { w.lit(E_KEY, ks[i]); w.add(E_INT, x[i]); } w.add(E_ENDM); emit(m, w);
}
ZV_HARNESS(map_key) {   // a key of any length and content
    size_t n = zv_u64("n"); auto p = zv_bytes("k", n); std::map<std::string, Leaf*> m0; std::map<std::string, double> m; uint64_t b = zv_u64("v"); m.emplace(std::string((char*)p, n), std::bit_cast<double>(b));
    Rec w; w.open(E_MAP, 1); w.str(E_KEY, p, n); w.add(E_DBL, b); w.add(E_ENDM); emit(m, w);
}
ZV_HARNESS(map_nested) {
    size_t n; const uint8_t* p; std::map<std::string_view, std::vector<Item>> m; m.emplace("v", items("n", "e", n, p)); m.emplace("w", std::vector<Item>{});
    Rec w; w.open(E_MAP, 2); w.lit(E_KEY, "v"); kids(w, n, p); w.lit(E_KEY, "w"); kids(w, 0, p); w.add(E_ENDM); emit(m, w);
}
ZV_HARNESS(unordered) {
    size_t n = zv_pick("n", 4); const char* ks[3] = {"", "ab", "b"}; std::unordered_map<std::string, uint64_t> m; for (size_t i = 0; i < n; ++i) m.emplace(ks[i], zv_u64("v"));
    Rec w; w.open(E_MAP, n); for (auto& e : m) { w.lit(E_KEY, e.first.c_str()); w.add(E_UINT, e.second); } w.add(E_ENDM); emit(m, w);
}
// builders
ZV_HARNESS(zvec_leaves) {
    size_t n = zv_u64("n"), m = zv_u64("m"); auto p = zv_bytes("s", n); auto q = zv_bytes("t", m); int8_t a = (int8_t)zv_u8("a"); uint32_t b = zv_u32("b"); uint64_t d = zv_u64("d");
    std::string s((char*)p, n); std::string_view sv((char*)q, m);
    Rec w; w.open(E_ARR, 8); w.add(E_INT, (uint64_t)(int64_t)a); w.add(E_UINT, b); w.add(E_DBL, d); w.str(E_STR, p, n); w.str(E_STR, q, m); w.lit(E_STR, "x"); w.add(E_BOOL, 1); w.add(E_NULL); w.add(E_ENDA);
    zvec(a, b, std::bit_cast<double>(d), s, sv, "x", true, nullptr)(w); w.done();
}
static auto temps(const uint8_t* p, size_t n, const uint8_t* q, size_t m) { return zvec(std::string((const char*)p, n), std::vector<std::byte>((const std::byte*)q, (const std::byte*)q + m), zmap<"k">(std::string((const char*)p, n))); }
ZV_HARNESS(zvec_temps) {   // the builder outlives the temporaries it was made from
    size_t n = zv_u64("n"), m = zv_u64("m"); auto p = zv_bytes("s", n); auto q = zv_bytes("t", m);
    auto b = temps(p, n, q, m); Rec w; w.open(E_ARR, 3); w.str(E_STR, p, n); w.str(E_BIN, q, m); w.open(E_MAP, 1); w.lit(E_KEY, "k"); w.str(E_STR, p, n); w.add(E_ENDM); w.add(E_ENDA);
    b(w); w.done();
}
ZV_HARNESS(zvec_items) {
    size_t n, m; const uint8_t *p, *q; auto v = items("n", "e", n, p); Rec w; w.open(E_ARR, 3); kids(w, n, p); w.open(E_ARR, 0); w.add(E_ENDA); auto u = items("m", "f", m, q); kids(w, m, q); w.add(E_ENDA);
    zvec(v, zvec(), std::move(u))(w); w.done();
}
ZV_HARNESS(zmap_leaves) {
    size_t n = zv_u64("n"); auto p = zv_bytes("s", n); uint16_t a = zv_u16("a"); int64_t b = (int64_t)zv_u64("b"); std::string s((char*)p, n);
    Rec w; w.open(E_MAP, 4); w.lit(E_KEY, "a"); w.add(E_UINT, a); w.lit(E_KEY, ""); w.add(E_INT, (uint64_t)b); w.lit(E_KEY, "longer key"); w.str(E_STR, p, n); w.lit(E_KEY, "z"); w.add(E_BOOL, 0); w.add(E_ENDM);
    zmap<"a", "", "longer key", "z">(a, b, s, false)(w); w.done();
}
ZV_HARNESS(zmap_nested) {
    size_t n; const uint8_t* p; auto v = items("n", "e", n, p); int64_t x = (int64_t)zv_u64("x");
    Rec w; w.open(E_MAP, 3); w.lit(E_KEY, "l"); kids(w, n, p); w.lit(E_KEY, "m"); w.open(E_MAP, 1); w.lit(E_KEY, "i"); w.open(E_ARR, 2); w.add(E_INT, x); w.open(E_MAP, 0); w.add(E_ENDM); w.add(E_ENDA); w.add(E_ENDM); w.lit(E_KEY, "n"); w.add(E_NULL); w.add(E_ENDM);
    zmap<"l", "m", "n">(v, zmap<"i">(zvec(x, zmap<>())), nullptr)(w); w.done();
}
ZV_HARNESS(entry) {   // serialize<P>(value or builder)
    uint64_t x = zv_u64("x"); Rec w; g_w = &w; g_fin = 0; size_t n; const uint8_t* p; auto v = items("n", "e", n, p);
    auto fin = [&](ZBuffer z) { w.done(); zv_assert(g_fin == 1 && z.size() == 1, "the buffer returned is the one finish() made"); };
    switch (zv_pick("what", 4)) {
    case 0: w.add(E_UINT, x); fin(zerialize::serialize<RP>(x)); break;
    case 1: w.open(E_ARR, 2); w.add(E_INT, x); kids(w, n, p); w.add(E_ENDA); fin(zerialize::serialize<RP>(zvec((int64_t)x, v))); break;
    case 2: w.open(E_MAP, 1); w.lit(E_KEY, "a"); kids(w, n, p); w.add(E_ENDM); fin(zerialize::serialize<RP>(zmap<"a">(v))); break;
    default: fin(zerialize::serialize<RP>()); break;
    }
}
// dyn::Value
ZV_HARNESS(def_dyn_leaf) {
    Leaf l = any_leaf((int)zv_pick("kind", 5)); Rec w; w.leaf(l);
    switch (l.kind) { case K_NULL: { switch (zv_pick("ctor", 3)) { case 0: emit(dyn::Value(), w); break; case 1: emit(dyn::Value(nullptr), w); break; default: emit(dyn::Value(dyn::Null{}), w); } break; }
    case K_BOOL: emit(dyn::Value(l.b), w); break; case K_INT: emit(dyn::Value(l.i), w); break; case K_UINT: emit(dyn::Value(l.u), w); break; default: emit(dyn::Value(l.d()), w); }
}
#define DYN(T, U, K) { T v = (T)zv_u64("v"); Rec w; w.add(K, (uint64_t)(U)v); emit(dyn::Value(v), w); break; }
ZV_HARNESS(def_dyn_int) {
    switch (zv_pick("type", 8)) {
    case 0: DYN(char, int64_t, E_INT) case 1: DYN(signed char, int64_t, E_INT) case 2: DYN(unsigned char, uint64_t, E_UINT) case 3: DYN(short, int64_t, E_INT)
    case 4: DYN(unsigned short, uint64_t, E_UINT) case 5: DYN(int, int64_t, E_INT) case 6: DYN(unsigned, uint64_t, E_UINT) default: DYN(long long, int64_t, E_INT)
    }
}
ZV_HARNESS(def_dyn_str) {
    size_t n = zv_u64("n"); Rec w;
    switch (zv_pick("ctor", 3)) {
    case 0: { auto p = zv_bytes("s", n); w.str(E_STR, p, n); emit(dyn::Value(std::string((char*)p, n)), w); break; }
    case 1: { auto p = zv_bytes("s", n); w.str(E_STR, p, n); emit(dyn::Value(std::string_view((char*)p, n)), w); break; }
    default: { auto p = zv_cstr("s", n); w.str(E_STR, p, n); emit(dyn::Value((const char*)p), w); }
    }
}
ZV_HARNESS(def_dyn_bin) {
    size_t n = zv_u64("n"); auto p = (const std::byte*)zv_bytes("s", n); Rec w; w.str(E_BIN, p, n);
    switch (zv_pick("ctor", 4)) {
    case 0: emit(dyn::Value(std::span<const std::byte>(p, n)), w); break;
    case 1: { std::vector<std::byte> v(p, p + n); emit(dyn::Value(v), w); break; }
    case 2: emit(dyn::Value(std::vector<std::byte>(p, p + n)), w); break;
    default: emit(dyn::Value::blob({p, n}), w);
    }
}
#ifdef ZV_SYMBOLIC
// an array or map of any number of values, each of them arbitrary: the elements are opaque, serialized by the contract being proved
template <class C> static void dyn_many(bool map) {
    using E = typename C::value_type; size_t n = zv_u64("n"); if (n >> 33) zv_assume(false); const uint8_t* p = zv_bytes("e", n * sizeof(E));
    union Hold { C c; Hold() : c() {} ~Hold() {} } h; h.c._M_impl._M_start = (E*)p; h.c._M_impl._M_finish = (E*)p + n; h.c._M_impl._M_end_of_storage = (E*)p + n;
    union HV { dyn::Value v; HV(C&& c) : v(std::move(c)) {} ~HV() {} } hv(std::move(h.c));
    Rec w; w.open(map ? E_MAP : E_ARR, n); w.add(Ev{E_KIDS, map, p, n}); w.add(map ? E_ENDM : E_ENDA); serialize(hv.v, w); w.done();
}
ZV_HARNESS(dyn_array) { dyn_many<dyn::Value::Array>(false); }
ZV_HARNESS(dyn_map) { dyn_many<dyn::Value::Map>(true); }
#endif
ZV_HARNESS(def_dyn_tree) {   // values built through the public constructors, nested
    uint64_t x = zv_u64("x"); size_t n = zv_u64("n"); auto p = zv_bytes("s", n); Rec w;
    w.open(E_ARR, 3); w.add(E_INT, x); w.open(E_MAP, 2); w.lit(E_KEY, "k"); w.str(E_STR, p, n); w.lit(E_KEY, ""); w.open(E_ARR, 0); w.add(E_ENDA); w.add(E_ENDM); w.add(E_NULL); w.add(E_ENDA);
    dyn::Value v = dyn::array({dyn::Value((int64_t)x), dyn::map({{"k", dyn::Value(std::string_view((char*)p, n))}, {"", dyn::array({})}}), dyn::Value()});
    emit(v, w);
}
ZV_HARNESS(def_dyn_ser) {   // the erased slot
    uint64_t x = zv_u64("x"); Rec w; w.open(E_ARR, 2); w.add(E_INT, (uint64_t)(int64_t)(int32_t)x); w.add(E_INT, 5); w.add(E_ENDA);
    dyn::Value v = dyn::serializable(std::vector<int>{(int)(int32_t)x, 5}); emit(v, w);
}
template <class W> static void every(W& w, const Leaf& l) { w.begin_array(3); w.begin_map(1); w.key("k"); put(w, l); w.end_map(); put(w, l); w.null(); w.end_array(); }
ZV_HARNESS(view) {   // the erased writer forwards every event unchanged
    Leaf l = any_leaf((int)zv_pick("kind", K_COUNT)); Rec w; w.open(E_ARR, 3); w.open(E_MAP, 1); w.lit(E_KEY, "k"); w.leaf(l); w.add(E_ENDM); w.leaf(l); w.add(E_NULL); w.add(E_ENDA);
    auto v = dyn::WriterView::make(w); every(v, l); w.done();
}
#ifndef ZV_SYMBOLIC
#include "doc.h"
// whole random values (native): the events equal those of writing the same document by hand
struct Log {
    std::string o; void put8(uint64_t v) { o.append((const char*)&v, 8); } void put_s(char c, const void* p, size_t n) { o += c; put8(n); if (n) o.append((const char*)p, n); }
    void null() { o += 'n'; } void boolean(bool b) { o += b ? 't' : 'f'; } void int64(int64_t v) { o += 'i'; put8((uint64_t)v); } void uint64(uint64_t v) { o += 'u'; put8(v); } void double_(double d) { o += 'd'; put8(std::bit_cast<uint64_t>(d)); }
    void string(std::string_view s) { put_s('s', s.data(), s.size()); } void binary(std::span<const std::byte> s) { put_s('b', s.data(), s.size()); } void key(std::string_view s) { put_s('k', s.data(), s.size()); }
    void begin_array(size_t n) { o += '['; put8(n); } void end_array() { o += ']'; } void begin_map(size_t n) { o += '{'; put8(n); } void end_map() { o += '}'; }
};
static dyn::Value value(const Node& n) {
    if (n.kind == K_ARR) { dyn::Value::Array a; for (auto& k : n.kids) a.push_back(value(k)); return dyn::Value::array(std::move(a)); }
    if (n.kind == K_MAP) { dyn::Value::Map m; for (size_t i = 0; i < n.kids.size(); ++i) m.emplace_back(n.keys[i], value(n.kids[i])); return dyn::Value::map(std::move(m)); }
    const Leaf& l = n.leaf;
    switch (l.kind) { case K_NULL: return {}; case K_BOOL: return l.b; case K_INT: return l.i; case K_UINT: return l.u; case K_DBL: return l.d(); case K_STR: return l.sv(); default: return l.bin(); }
}
ZV_EXPLORE(dyn) {
    ZvSrc s; int budget = 40; Node n = any_node(s, 3, budget); Log a, b; put(a, n); dyn::Value v = value(n), c = v, d = std::move(v); if (zv_pick("which", 2)) c = d; else d = c;
    serialize(c, b); zv_assert(a.o == b.o, "a dynamic value emits its document"); Log e; serialize(d, e); zv_assert(a.o == e.o, "a copied or moved dynamic value emits its document");
    Log f; serialize(dyn::serializable(c), f); zv_assert(a.o == f.o, "an erased value emits its document"); Log g; zvec(c, zmap<"x">(d), dyn::serializable(c))(g); zv_assert(g.o.size() > a.o.size() * 3, "nested");
}
ZV_EXPLORE(unordered_any) {
    ZvSrc s; std::unordered_map<std::string, dyn::Value> m; std::map<std::string, std::string> want; size_t n = zv_pick("n", 40);
    for (size_t i = 0; i < n; ++i) { std::string k = s.bytes(zv_pick("kl", 6)); uint64_t x = zv_u64("x"); if (m.emplace(k, x).second) { Log l; l.uint64(x); want[k] = l.o; } }
    Log a; serialize(m, a); Log h; h.begin_map(m.size()); zv_assert(a.o.compare(0, 9, h.o) == 0 && a.o.back() == '}', "opened and closed once");
    size_t p = 9; while (a.o[p] == 'k') { uint64_t kl; memcpy(&kl, &a.o[p + 1], 8); std::string k = a.o.substr(p + 9, kl), v = a.o.substr(p + 9 + kl, 9); zv_assert(want.count(k) && want[k] == v, "the entry is one of the map's"); want.erase(k); p += 18 + kl; }
    zv_assert(want.empty() && p + 1 == a.o.size(), "every entry is emitted once");
}
#endif
