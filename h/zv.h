// Contract vocabulary shared by the verifier (zv/*.py, which interprets these calls symbolically)
// and by the native runtime (h/zvrt.cpp, which replays a concrete input through the very same contract).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <limits>
#include <algorithm>
#include <span>
#include <string>
#include <string_view>
#include <vector>

extern "C" {
// universally quantified inputs
uint8_t  zv_u8(const char* name);
uint16_t zv_u16(const char* name);
uint32_t zv_u32(const char* name);
uint64_t zv_u64(const char* name);
bool     zv_bool(const char* name);
uint64_t zv_pick(const char* name, uint64_t n);           // exhaustive case split over 0..n-1
uint8_t* zv_bytes(const char* name, size_t n);            // n arbitrary bytes in an object of exactly n bytes
char*    zv_cstr(const char* name, size_t n);              // n arbitrary non-NUL characters and a terminator
uint64_t zv_docsize(const char* name);                    // as zv_u64 (random exploration: the size of a mutated sample document)
// contracts
void zv_assume(bool c);                                   // requires
void zv_assert(bool c, const char* label);                // ensures
void zv_cover(const char* label);                         // vacuity guard: must be reachable
void zv_stop(void);                                       // end this path
// ghost observations on pointers
uint64_t zv_off(const void* p, const void* base, size_t n);  // p-base if p points into [base,base+n], else UINT64_MAX
bool     zv_live(const void* p, size_t n);                   // [p,p+n) lies in one live object
// lemma instantiation: use every established memcmp()==0 at index j
void zv_eqinst(uint64_t j);
// uninterpreted (abstract) functions
uint64_t zv_uf1(const char* f, uint64_t);
uint64_t zv_uf2(const char* f, uint64_t, uint64_t);
uint64_t zv_uf3(const char* f, uint64_t, uint64_t, uint64_t);
uint64_t zv_havoc64(void);
bool     zv_havocbool(void);
void     zv_unsupported(const char* why);
// loop annotations: candidate inductive facts, proved before they are used
void zv_hint(uint64_t (*fn)(const void* ctx, uint64_t k), const void* ctx);
void zv_hint_array(uint8_t (*fn)(const void* ctx, uint64_t j), const void* ctx);
void zv_hint_clear(void);
bool zv_symbolic(void);
}

namespace zv {
inline std::span<const uint8_t> any_doc() { size_t n = zv_docsize("n"); return {zv_bytes("buf", n), n}; }
inline std::span<const uint8_t> bytes(const char* name, size_t n) { return {zv_bytes(name, n), n}; }
inline bool inside(const void* p, size_t n, const void* base, size_t bn) {
    uint64_t o = zv_off(p, base, bn);
    return n == 0 || (o != UINT64_MAX && o <= bn && n <= bn - o);
}
}
#define ZV_HARNESS(name) extern "C" void H_##name()
// native-only exploration of a contract that is outside the verifier's reach (a bounded stand-in, never counted as proved)
#define ZV_EXPLORE(name) extern "C" void X_##name()
