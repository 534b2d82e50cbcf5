// Native runtime of the contract vocabulary (zv.h): replays one concrete input through a contract harness compiled
// from the same source as the verified IR, or explores random inputs.  Built with ASan + UBSan.
//   prog replay FILE HARNESS            exit 0 held, 1 contract violated, 3 input rejected by a precondition
//   prog random SEED SECONDS COUNT OUT HARNESS...   exit 0 / 1 (OUT receives the failing input); prints statistics
#include "zv.h"
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <typeinfo>
#include <unistd.h>
#include <cxxabi.h>
extern "C" void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak));
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace {
struct Discard {};
std::vector<uint8_t> g_doc; bool g_hasdoc = false;
struct Rec { bool bytes; std::string name; uint64_t v; uint64_t n; uint8_t def; std::map<uint64_t, uint8_t> cells; std::vector<uint8_t> data; };
bool g_replay = false;
std::vector<Rec> g_in; size_t g_pos = 0;
std::vector<Rec> g_trace;
std::vector<void*> g_alloc;
std::set<std::string> g_covers;
std::map<std::string, uint64_t> g_asserts;
uint64_t g_nassert = 0;
std::string g_cur, g_out;
uint64_t s0 = 1, s1 = 2, ufseed = 0;
uint64_t rnd() { uint64_t x = s0, y = s1; s0 = y; x ^= x << 23; s1 = x ^ y ^ (x >> 17) ^ (y >> 26); return s1 + y; }
void seed(uint64_t a) { s0 = a * 0x9E3779B97F4A7C15ull + 1; s1 = a ^ 0xD1B54A32D192ED03ull; for (int i = 0; i < 8; ++i) rnd(); ufseed = rnd(); }

void dump(const char* why) {
    if (g_out.empty()) return;
    FILE* f = fopen(g_out.c_str(), "w");
    if (!f) return;
    fprintf(f, "# harness %s\n# %s\n", g_cur.c_str(), why);
    for (auto& r : g_trace) {
        if (!r.bytes) fprintf(f, "u %s %llu\n", r.name.c_str(), (unsigned long long)r.v);
        else {
            fprintf(f, "b %s %llu %u", r.name.c_str(), (unsigned long long)r.n, r.def);
            if (!r.data.empty() || r.cells.empty()) { for (size_t i = 0; i < r.data.size(); ++i) if (r.data[i] != r.def) fprintf(f, " %zu:%u", i, r.data[i]); }
            else for (auto& [i, v] : r.cells) fprintf(f, " %llu:%u", (unsigned long long)i, v);
            fprintf(f, "\n");
        }
    }
    fclose(f);
}
[[noreturn]] void violated(const std::string& why) {
    printf("VIOLATED harness=%s %s\n", g_cur.c_str(), why.c_str());
    fflush(stdout);
    dump(why.c_str());
    _exit(1);
}
void on_death() { printf("VIOLATED harness=%s sanitizer report (memory error or undefined behaviour)\n", g_cur.c_str()); fflush(stdout); dump("sanitizer report (memory error or undefined behaviour)"); }
void on_alarm(int) { violated("does not terminate (60 s on one input)"); }
void on_terminate() {
    std::string w = "std::terminate called";
    if (auto* t = abi::__cxa_current_exception_type()) w += std::string(" with exception ") + t->name();
    violated(w);
}
Rec& next(bool bytes, const char* name) {
    if (g_pos >= g_in.size() || g_in[g_pos].bytes != bytes || g_in[g_pos].name != name) throw Discard{};
    return g_in[g_pos++];
}
uint64_t gen(const char* name, int w) {
    uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1, v;
    if (name[0] == 'l' && name[1] == 'n') {  // size of a leaf inside a larger document
        static const uint64_t b[] = {11,12,13,15,16,17,31,32,33,255,256,257};
        uint64_t r = rnd() % 1000;
        return r < 800 ? rnd() % 20 : r < 999 ? b[rnd() % 12] : 65535 + rnd() % 3;
    }
    bool sz = name[0] == 'n' || (name[0] == 'k' && name[1] == 'n');
    if (sz) {
        static const uint64_t b[] = {0,1,2,3,4,7,8,11,12,13,15,16,17,20,31,32,33,48,64,255,256,257,300};
        uint64_t r = rnd() % 100;
        if (r < 60) v = rnd() % 24; else if (r < 97) v = b[rnd() % (sizeof b / 8)]; else { static const uint64_t c[] = {65534,65535,65536,65537,1000,4096}; v = c[rnd() % 6]; }
        return v & m;
    }
    switch (rnd() % 8) {
    case 0: case 1: v = rnd() % 6; break;
    case 2: v = rnd() % 300; break;
    case 3: case 4: { unsigned k = rnd() % 64; v = (1ull << k) + (rnd() % 3) - 1; break; }
    case 5: { unsigned k = rnd() % 64; v = ~((1ull << k) + (rnd() % 3) - 1); break; }
    case 6: v = rnd() >> (rnd() % 64); break;
    default: v = rnd();
    }
    return v & m;
}
uint64_t getu(const char* name, int w) {
    if (g_replay) { auto& r = next(false, name); g_trace.push_back(r); return w == 64 ? r.v : r.v & ((1ull << w) - 1); }
    uint64_t v = gen(name, w);
    g_trace.push_back(Rec{false, name, v, 0, 0, {}, {}});
    return v;
}
std::string tname(const std::type_info& t) { int st; char* p = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st); std::string s = p ? p : t.name(); free(p); return s; }
// one execution; returns false if discarded
bool once(void (*fn)()) {
    bool ok = true;
    g_trace.clear(); g_pos = 0; g_hasdoc = false;
    try { fn(); }
    catch (const Discard&) { ok = false; }
    catch (const std::bad_alloc&) { ok = false; }
    catch (const std::exception& e) { violated(std::string("uncaught exception ") + tname(typeid(e)) + ": " + e.what()); }
    catch (...) { violated("uncaught exception"); }
    for (void* p : g_alloc) free(p);
    g_alloc.clear();
    return ok;
}
uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
uint64_t ufs(const char* f, std::initializer_list<uint64_t> a) { uint64_t h = ufseed; for (const char* p = f; *p; ++p) h = mix(h, *p); for (auto x : a) h = mix(h, x); return h; }
}
extern "C" {
uint8_t  zv_u8(const char* n) { return (uint8_t)getu(n, 8); }
uint16_t zv_u16(const char* n) { return (uint16_t)getu(n, 16); }
uint32_t zv_u32(const char* n) { return (uint32_t)getu(n, 32); }
uint64_t zv_u64(const char* n) { return getu(n, 64); }
bool     zv_bool(const char* n) { return getu(n, 8) & 1; }
uint64_t zv_pick(const char* name, uint64_t n) {
    if (g_replay) { auto& r = next(false, name); g_trace.push_back(r); if (r.v >= n) throw Discard{}; return r.v; }
    uint64_t v = rnd() % n;
    g_trace.push_back(Rec{false, name, v, 0, 0, {}, {}});
    return v;
}
// size of an arbitrary document; when the harness TU supplies sample documents, random exploration mutates those
void zv_corpus(uint64_t seed, std::vector<uint8_t>& out) __attribute__((weak));
uint64_t zv_docsize(const char* name) {
    if (g_replay) return getu(name, 64);
    if (!zv_corpus || rnd() % 4 == 0) { uint64_t v = gen("n", 64); g_trace.push_back(Rec{false, name, v, 0, 0, {}, {}}); return v; }
    g_doc.clear(); zv_corpus(rnd(), g_doc); g_hasdoc = true;
    unsigned muts = rnd() % 4;
    for (unsigned i = 0; i < muts && !g_doc.empty(); ++i) {
        size_t at = rnd() % g_doc.size();
        switch (rnd() % 6) {
        case 0: g_doc[at] = (uint8_t)rnd(); break;
        case 1: g_doc[at] ^= 1u << (rnd() % 8); break;
        case 2: g_doc[at] = (uint8_t)(g_doc[at] + (rnd() % 2 ? 1 : -1)); break;
        case 3: g_doc.resize(at); break;
        case 4: for (int k = 0; k < 4 && at + k < g_doc.size(); ++k) g_doc[at + k] = 0xff; break;
        default: g_doc[at] = g_doc[rnd() % g_doc.size()];
        }
    }
    g_trace.push_back(Rec{false, name, g_doc.size(), 0, 0, {}, {}});
    return g_doc.size();
}
static uint8_t* mk(const char* name, size_t n, bool cstr) {
    Rec r{true, name, 0, n, 0, {}, {}};
    uint8_t* p;
    if (g_replay) {
        Rec& q = next(true, name);
        if (q.n != n + cstr) throw Discard{};
        if (n > (6ull << 30)) throw Discard{};
        p = (uint8_t*)malloc(n + cstr > 0 ? n + cstr : 1);
        if (!p) throw Discard{};
        g_alloc.push_back(p);
        if (n) memset(p, q.def, n);
        for (auto& [i, v] : q.cells) if (i < n) p[i] = v;
        r.def = q.def; r.cells = q.cells;
    } else {
        if (n > (1u << 20)) throw Discard{};
        p = (uint8_t*)malloc(n + cstr > 0 ? n + cstr : 1);
        g_alloc.push_back(p);
        unsigned mode = rnd() % 5;
        if (g_hasdoc && n == g_doc.size()) { if (n) memcpy(p, g_doc.data(), n); g_hasdoc = false; }
        else for (size_t i = 0; i < n; ++i) {
            switch (mode) {
            case 0: p[i] = (uint8_t)rnd(); break;
            case 1: p[i] = (uint8_t)('a' + rnd() % 3); break;
            case 2: p[i] = (rnd() % 4) ? 0 : (uint8_t)rnd(); break;
            case 3: p[i] = (uint8_t)(rnd() % 2 ? 0xff : rnd()); break;
            default: p[i] = (uint8_t)"+/=09AZaz\0\x7f\x80\xc0\xdf\xff"[rnd() % 16];
            }
            if (cstr && !p[i]) p[i] = 1;
        }
        r.data.assign(p, p + n);
    }
    if (cstr) { p[n] = 0; for (size_t i = 0; i < n; ++i) if (!p[i]) throw Discard{}; }
    if (n + cstr == 0) { // an object of zero bytes: any access is an error
        uint8_t* q = (uint8_t*)malloc(0); if (q) { g_alloc.push_back(q); p = q; }
    }
    g_trace.push_back(std::move(r));
    return p;
}
uint8_t* zv_bytes(const char* name, size_t n) { return mk(name, n, false); }
char*    zv_cstr(const char* name, size_t n) { return (char*)mk(name, n, true); }
void zv_assume(bool c) { if (!c) throw Discard{}; }
void zv_assert(bool c, const char* label) { ++g_nassert; ++g_asserts[label]; if (!c) violated(std::string("ensures: ") + label); }
void zv_cover(const char* l) { g_covers.insert(l); }
void zv_stop(void) { throw Discard{}; }
uint64_t zv_off(const void* p, const void* b, size_t n) {
    auto x = (uintptr_t)p, y = (uintptr_t)b;
    return x >= y && x <= y + n ? x - y : UINT64_MAX;
}
bool zv_live(const void* p, size_t n) { return p && (!__asan_region_is_poisoned || !__asan_region_is_poisoned((void*)p, n)); }
void zv_eqinst(uint64_t) {}
uint64_t zv_uf1(const char* f, uint64_t a) { return ufs(f, {a}); }
uint64_t zv_uf2(const char* f, uint64_t a, uint64_t b) { return ufs(f, {a, b}); }
uint64_t zv_uf3(const char* f, uint64_t a, uint64_t b, uint64_t c) { return ufs(f, {a, b, c}); }
uint64_t zv_havoc64(void) { return gen("havoc", 64); }
bool zv_havocbool(void) { return rnd() & 1; }
void zv_hint(uint64_t (*)(const void*, uint64_t), const void*) {}
void zv_hint_array(uint8_t (*)(const void*, uint64_t), const void*) {}
void zv_hint_clear(void) {}
bool zv_symbolic(void) { return false; }
void zv_unsupported(const char*) {}
}
// allocation failure is std::bad_alloc (ASan would abort); exploration refuses huge blocks
void* operator new(size_t n) { void* p = !g_replay && n > (1ull << 30) ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
static void (*find(const char* n))() {
    auto* f = (void (*)())dlsym(RTLD_DEFAULT, n);
    if (!f) { fprintf(stderr, "no harness %s\n", n); exit(4); }
    return f;
}
extern "C" const char* __asan_default_options() { return "exitcode=1:allocator_may_return_null=1:detect_leaks=0:detect_stack_use_after_return=1:quarantine_size_mb=64:max_allocation_size_mb=24000"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=1"; }
int main(int argc, char** argv) {
    if (argc < 4) return 4;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    signal(SIGALRM, on_alarm);
    std::set_terminate(on_terminate);
    if (std::string(argv[1]) == "replay") {
        g_replay = true; g_cur = argv[3];
        seed(argc > 4 ? strtoull(argv[4], 0, 10) : 1);
        std::ifstream in(argv[2]);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream is(line);
            std::string k; is >> k;
            if (k == "u") { Rec r{}; is >> r.name >> r.v; g_in.push_back(r); }
            else if (k == "b") {
                Rec r{}; r.bytes = true; unsigned d; is >> r.name >> r.n >> d; r.def = (uint8_t)d;
                std::string t; while (is >> t) { auto c = t.find(':'); r.cells[std::stoull(t.substr(0, c))] = (uint8_t)std::stoul(t.substr(c + 1)); }
                g_in.push_back(r);
            }
        }
        alarm(60);
        bool ok = once(find(argv[3]));
        alarm(0);
        printf("%s\n", ok ? "HELD" : "REJECTED");
        return ok ? 0 : 3;
    }
    if (argc < 7) return 4;
    uint64_t sd = strtoull(argv[2], 0, 10); double secs = atof(argv[3]); uint64_t cnt = strtoull(argv[4], 0, 10);
    g_out = argv[5];
    uint64_t total = 0, kept = 0;
    for (int a = 6; a < argc; ++a) {
        g_cur = argv[a];
        auto* fn = find(argv[a]);
        uint64_t k = 0, t = 0, hs = 0;
        std::set<uint64_t> distinct;
        for (const char* p = argv[a]; *p; ++p) hs = mix(hs, *p);
        timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
        for (; t < cnt; ++t) {
            seed(mix(mix(sd, hs), t));
            alarm(60);
            if (once(fn)) {
                ++k;
                uint64_t h = 0;
                for (auto& r : g_trace) { h = mix(h, r.v); h = mix(h, r.n); for (auto b : r.data) h = mix(h, b); }
                if (distinct.size() < 2000000) distinct.insert(h);
            }
            alarm(0);
            if ((t & 63) == 63 || secs < 1) { clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > secs) { ++t; break; } }
        }
        total += t; kept += k;
        printf("STAT %s tried=%llu ran=%llu distinct=%llu\n", argv[a], (unsigned long long)t, (unsigned long long)k, (unsigned long long)distinct.size());
    }
    for (auto& c : g_covers) printf("COVER %s\n", c.c_str());
    for (auto& [l, n] : g_asserts) printf("ASSERT %llu %s\n", (unsigned long long)n, l.c_str());
    return 0;
}
