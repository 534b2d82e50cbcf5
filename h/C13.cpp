// C13: the Zera writer never turns misuse into a well-formed document, and accepts every correct call sequence.
#define ZV_ZERA
#include "leaf.h"
#include "proto.h"
using namespace zerialize;
// reference automaton: what the calls so far describe
enum Op { O_VALUE, O_STR, O_BIN, O_BA, O_EA, O_BM, O_EM, O_KEY, O_COUNT };
struct Ref {
    static constexpr int MAX = 64;
    char st[MAX]; int n = 0; bool root = false, bad = false;   // 'A' array, 'M' map awaiting a key, 'K' map awaiting a value
    void value() { if (n == 0) { if (root) bad = true; root = true; } else if (st[n - 1] == 'M') bad = true; }
    void done() { if (n && st[n - 1] == 'K') st[n - 1] = 'M'; }
    void op(int o) {
        if (bad) return;
        switch (o) {
        case O_BA: case O_BM: value(); if (!bad) st[n++] = o == O_BA ? 'A' : 'M'; break;
        case O_EA: if (!n || st[n - 1] != 'A') { bad = true; return; } --n; done(); break;
        case O_EM: if (!n || st[n - 1] != 'M') { bad = true; return; } --n; done(); break;
        case O_KEY: if (!n || st[n - 1] != 'M') { bad = true; return; } st[n - 1] = 'K'; break;
        default: value(); if (!bad) done();
        }
    }
    bool complete() const { return !bad && n == 0; }
};
template <class W> static void call(W& w, int o, int reps) {
    switch (o) {
    case O_VALUE: switch (reps % 5) { case 0: w.null(); break; case 1: w.boolean(true); break; case 2: w.int64(-7); break; case 3: w.uint64(9); break; default: w.double_(1.5); } break;
    case O_STR: w.string(reps & 1 ? std::string_view("a string of more than twelve bytes") : std::string_view("s")); break;
    case O_BIN: { static const std::byte b[3]{}; w.binary({b, size_t(reps % 4)}); break; }
    case O_BA: w.begin_array(reps); break;
    case O_EA: w.end_array(); break;
    case O_BM: w.begin_map(reps); break;
    case O_EM: w.end_map(); break;
    default: w.key(reps & 1 ? "k" : "key"); break;
    }
}
// runs the calls; the sequence ends at the first exception
template <class F> static void seq(int len, F next) {
    PZ::RootSerializer rs; PZ::Serializer w(rs); Ref ref; bool threw = false;
    ZBuffer z;
    try { for (int i = 0; i < len; ++i) { int o = next(i, ref); ref.op(o); call(w, o, i); } z = rs.finish(); }
    catch (const SerializationError&) { threw = true; }
    if (ref.complete()) {
        zv_assert(!threw, "a call sequence describing one complete value is accepted");
        if (!threw && !ref.root) { PZ::Deserializer d(z.buf()); zv_assert(d.isNull(), "finishing without any value gives a null document"); }
        zv_cover("accepted");
    } else { zv_assert(threw, "a misused call sequence is refused"); zv_cover("refused"); }
}
ZV_HARNESS(seq1) { int len = (int)zv_pick("len", 3); seq(len, [](int, Ref&) { return (int)zv_pick("op", O_COUNT); }); }
// sequences of three and four calls, by first call (strings and binaries act as values here: seq1 tells them apart)
static int op4() { static constexpr int o[] = {O_VALUE, O_BA, O_EA, O_BM, O_EM, O_KEY}; return o[zv_pick("op", 6)]; }
#define SEQ4(first) ZV_HARNESS(seq_##first) { int len = 3 + (int)zv_pick("len", 2); seq(len, [](int i, Ref&) { return i == 0 ? first : op4(); }); }
SEQ4(O_VALUE) SEQ4(O_BA) SEQ4(O_BM)
// key and size limits
ZV_HARNESS(key_limit) {
    size_t n = zv_u64("kn"); auto k = zv::bytes("key", n);
    PZ::RootSerializer rs; PZ::Serializer w(rs); bool threw = false;
    try { w.begin_map(1); w.key({(const char*)k.data(), n}); w.null(); w.end_map(); (void)rs.finish(); } catch (const SerializationError&) { threw = true; }
    zv_assert(threw == (n > 65535), "keys up to 65535 bytes are accepted, longer ones refused");
    zv_cover(threw ? "refused" : "accepted");
}
ZV_HARNESS(big_limit) {
    size_t n = zv_u64("n"); auto s = zv::bytes("s", n); bool bin = zv_bool("bin");
    PZ::RootSerializer rs; PZ::Serializer w(rs); bool threw = false;
    try { if (bin) w.binary({(const std::byte*)s.data(), n}); else w.string({(const char*)s.data(), n}); (void)rs.finish(); } catch (const SerializationError&) { threw = true; }
    if (n > UINT32_MAX) { zv_assert(threw, "strings and binary of 4 GiB or more are refused"); zv_cover("refused"); }
    else { zv_assert(!threw, "strings and binary below 4 GiB are accepted"); zv_cover("accepted"); }
}
#ifndef ZV_SYMBOLIC
// long call sequences, mostly correct with an occasional arbitrary call
ZV_EXPLORE(sequence) {
    int len = (int)zv_pick("len", 40); int rate = (int)zv_pick("rate", 40);
    PZ::RootSerializer probe;
    seq(len, [&](int i, Ref& r) {
        if (r.n > 60) return (int)O_EA;
        if (rate < 30 && zv_pick("wild", 4 + rate) == 0) return (int)zv_pick("op", O_COUNT);
        int left = len - i;
        if (r.n >= left) return r.st[r.n - 1] == 'A' ? (int)O_EA : r.st[r.n - 1] == 'M' ? (int)O_EM : (int)O_VALUE;
        if (r.n && r.st[r.n - 1] == 'M') return zv_pick("close", 4) ? (int)O_KEY : (int)O_EM;
        if (r.n && r.st[r.n - 1] == 'A' && zv_pick("close", 5) == 0) return (int)O_EA;
        if (r.n == 0 && r.root) return (int)O_EA;
        static const int v[] = {O_VALUE, O_STR, O_BIN, O_BA, O_BM, O_BA, O_BM};
        return v[zv_pick("v", 7)];
    });
}
// correct sequences only: the generator closes everything
ZV_EXPLORE(correct) {
    int total = (int)zv_pick("len", 60); bool closing = false; int made = 0;
    PZ::RootSerializer rs; PZ::Serializer w(rs); Ref r;
    auto step = [&](int o) { r.op(o); call(w, o, made++); };
    try {
        step((int[]){O_BA, O_BM, O_BA, O_BM, O_VALUE, O_STR, O_BIN}[zv_pick("root", 7)]);
        while (r.n) {
            if (made > total) closing = true;
            char t = r.st[r.n - 1];
            if (t == 'M') step(closing || zv_pick("close", 5) == 0 ? O_EM : O_KEY);
            else if (t == 'A' && (closing || zv_pick("close", 5) == 0)) step(O_EA);
            else step(closing ? O_VALUE : (int[]){O_BA, O_BM, O_VALUE, O_STR, O_BIN}[zv_pick("v", r.n > 50 ? 5 : 5)] );
            if (r.n > 60) closing = true;
        }
        (void)rs.finish();
    } catch (const SerializationError&) { zv_assert(false, "a call sequence describing one complete value is accepted"); }
    zv_assert(r.complete(), "generator is correct");
}
#endif
