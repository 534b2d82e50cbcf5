// C07: write_value() emits exactly the document its reader describes.  The reader is abstract: a node of any kind with any
// number of children, whose children are written according to the contract of write_value itself (induction on depth).
#include "leaf.h"
#include <zerialize/translate.hpp>
using namespace zerialize;
// ZV_CONTRACT rec void zerialize::write_value<Abs, Rec>( = ZC_write_value
struct Doc { int kind; uint64_t num; const uint8_t* p; size_t n; size_t count; const char* keys; size_t kn; };
static const Doc* g_doc;     // the node under translation
struct Abs;
// the key of entry i: any slice of an arbitrary buffer
static std::string_view key_at(const Doc* d, uint64_t i) {
    uint64_t o = zv_uf1("keyoff", i), l = zv_uf1("keylen", i); if (!zv_symbolic()) { o %= d->kn + 1; l %= d->kn - o + 1; }
    zv_assume(o <= d->kn && l <= d->kn - o); return {d->keys + o, (size_t)l};
}
struct KeyIt {
    using value_type = std::string_view; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag; using reference = std::string_view; using pointer = void;
    const Doc* d = nullptr; uint64_t i = 0;
    std::string_view operator*() const { return key_at(d, i); }
    KeyIt& operator++() { ++i; return *this; } KeyIt operator++(int) { auto t = *this; ++i; return t; }
    friend bool operator==(const KeyIt& a, const KeyIt& b) { return a.i == b.i; }
};
struct Keys { const Doc* d; KeyIt begin() const { return {d, 0}; } KeyIt end() const { return {d, d->count}; } };
struct Abs {
    uint64_t id; const Doc* d;   // d: only the node under translation has content; children are opaque
    int k() const { if (!d) { zv_unsupported("child inspected"); zv_assume(false); } return d->kind; }
    bool isNull() const { return k() == 0; } bool isBool() const { return k() == 1; } bool isInt() const { return k() == 2 || k() == 9; } bool isUInt() const { return k() == 3 || k() == 9; }
    bool isFloat() const { return k() == 4; } bool isString() const { return k() == 5; } bool isBlob() const { return k() == 6; } bool isArray() const { return k() == 7; } bool isMap() const { return k() == 8; }
    void need(bool c) const { if (!c) throw DeserializationError("kind"); }
    bool asBool() const { need(isBool()); return d->num & 1; }
    int64_t asInt64() const { need(isInt() || isUInt()); if (k() == 3) need((int64_t)d->num >= 0); return (int64_t)d->num; }
    uint64_t asUInt64() const { need(isInt() || isUInt()); if (k() == 2) need((int64_t)d->num >= 0); return d->num; }
    double asDouble() const { need(isFloat()); return std::bit_cast<double>(d->num); }
    float asFloat() const { return (float)asDouble(); }
    int8_t asInt8() const { zv_unsupported("narrow"); return 0; } int16_t asInt16() const { zv_unsupported("narrow"); return 0; } int32_t asInt32() const { zv_unsupported("narrow"); return 0; }
    uint8_t asUInt8() const { zv_unsupported("narrow"); return 0; } uint16_t asUInt16() const { zv_unsupported("narrow"); return 0; } uint32_t asUInt32() const { zv_unsupported("narrow"); return 0; }
    std::string_view asStringView() const { need(isString()); return {(const char*)d->p, d->n}; }
    std::string asString() const { need(isString()); return std::string((const char*)d->p, d->n); }
    std::span<const std::byte> asBlob() const { need(isBlob()); return {(const std::byte*)d->p, d->n}; }
    Keys mapKeys() const { need(isMap()); return {d}; }
    bool contains(std::string_view) const { return true; }
    size_t arraySize() const { need(isArray()); return d->count; }
    Abs operator[](size_t i) const { need(isArray() && i < d->count); return {zv_uf1("elem", i), nullptr}; }
    Abs operator[](std::string_view k) const { need(isMap()); return {zv_uf2("child", (uint64_t)(k.data() - d->keys), k.size()), nullptr}; }
};
// the writer: every event must be the one the document calls for next
struct Rec {
    const Doc* d; uint64_t i = 0; bool begun = false, ended = false, keyed = false;
    void leaf(int kind, const char* l) { zv_assert(!ended && !begun && d->kind == kind, l); ended = true; zv_cover("leaf"); }
    void null() { leaf(0, "null is emitted for null"); }
    void boolean(bool b) { leaf(1, "a boolean is emitted for a boolean"); zv_assert(b == bool(d->num & 1), "the boolean keeps its value"); }
    void int64(int64_t v) { zv_assert(!ended && !begun && (d->kind == 2 || d->kind == 9 || (d->kind == 3 && (int64_t)d->num >= 0)), "a signed integer is emitted for an integer it can hold"); ended = true; zv_assert((uint64_t)v == d->num, "the integer keeps its value"); }
    void uint64(uint64_t v) { zv_assert(!ended && !begun && (d->kind == 3 || (d->kind == 9 || d->kind == 2) && (int64_t)d->num >= 0), "an unsigned integer is emitted for an integer it can hold"); ended = true; zv_assert(v == d->num, "the integer keeps its value"); }
    void double_(double v) { leaf(4, "a double is emitted for a double"); zv_assert(std::bit_cast<uint64_t>(v) == d->num, "the double keeps its bits"); }
    void string(std::string_view s) { leaf(5, "a string is emitted for a string"); zv_assert(s.size() == d->n, "the string keeps its length"); same_bytes(s.data(), d->p, d->n, "j", "the string keeps its bytes"); }
    void binary(std::span<const std::byte> s) { leaf(6, "binary is emitted for binary"); zv_assert(s.size() == d->n, "the binary keeps its length"); same_bytes(s.data(), d->p, d->n, "j", "the binary keeps its bytes"); }
    void begin_array(size_t n) { zv_assert(!begun && !ended && d->kind == 7, "an array is opened for an array"); zv_assert(n == d->count, "with its size"); begun = true; }
    void begin_map(size_t n) { zv_assert(!begun && !ended && d->kind == 8, "a map is opened for a map"); zv_assert(n == d->count, "with its number of entries"); begun = true; }
    void key(std::string_view k) {
        zv_assert(begun && !ended && d->kind == 8 && !keyed && i < d->count, "a key is emitted for the next entry");
        auto w = key_at(d, i); zv_assert(k.size() == w.size(), "the key keeps its length"); same_bytes(k.data(), (const uint8_t*)w.data(), w.size(), "jk", "the key keeps its bytes"); keyed = true;
    }
    void child(uint64_t id) {
        zv_assert(begun && !ended && i < d->count, "a child is emitted inside its container");
        if (d->kind == 8) { auto w = key_at(d, i); zv_assert(keyed, "a map value follows its key"); zv_assert(id == zv_uf2("child", (uint64_t)(w.data() - d->keys), w.size()), "the value emitted under a key is the value the reader finds under it"); }
        else zv_assert(id == zv_uf1("elem", i), "elements are emitted in order");
        keyed = false; ++i;
    }
    void end_array() { end(7); } void end_map() { end(8); }
    void end(int k) { zv_assert(begun && !ended && d->kind == k && !keyed, "the container opened is closed"); zv_assert(i == d->count, "every child is emitted before the container is closed"); ended = true; zv_cover("container"); }
};
extern "C" void ZC_write_value(const Abs& v, Rec& w) { if (zv_havocbool()) throw DeserializationError("child"); w.child(v.id); }
static Doc any(int kind) {
    Doc d{kind, zv_u64("v"), nullptr, 0, 0, nullptr, 0};
    if (kind == 5 || kind == 6) { d.n = zv_u64("n"); d.p = zv_bytes("s", d.n); }
    if (kind == 7 || kind == 8) { d.count = zv_u64("count"); if (!zv_symbolic()) d.count %= 50; }
    if (kind == 8) { d.kn = zv_u64("kn"); zv_assume(d.kn < (1ull << 40)); d.keys = (const char*)zv_bytes("keys", d.kn); }
    return d;
}
static void translate_one(int kind) {
    Doc d = any(kind); Abs v{1, &d}; Rec w{&d};
    try { write_value(v, w); } catch (const DeserializationError&) { zv_cover("child rejected"); zv_assert(kind >= 7 && !w.ended, "an error in a child leaves no complete document"); return; }
    zv_assert(w.ended, "the whole value is emitted");
}
#ifdef ZV_SYMBOLIC
ZV_HARNESS(def_leaf) { int k = (int)zv_pick("kind", 6); translate_one(k == 5 ? 9 : k); }
ZV_HARNESS(def_string) { translate_one(5); }
ZV_HARNESS(def_binary) { translate_one(6); }
ZV_HARNESS(array) { translate_one(7); }
ZV_HARNESS(map) { translate_one(8); }
#endif
