// Self test of the verifier: what it must prove and what it must refute.
#include "zv.h"
ZV_HARNESS(good_sum) { uint32_t n = zv_u32("n"); uint64_t s = 0; for (uint32_t i = 0; i < n; ++i) s += 2; zv_assert(s == 2ull * n, "sum"); zv_cover("end"); }
ZV_HARNESS(good_bounds) { size_t n = zv_u64("n"); auto* p = zv_bytes("b", n); size_t i = zv_u64("i"); if (i < n) zv_assert(p[i] <= 255, "read"); zv_cover("end"); }
ZV_HARNESS(bad_bounds) { size_t n = zv_u64("n"); auto* p = zv_bytes("b", n); size_t i = zv_u64("i"); if (i <= n) zv_assert(p[i] <= 255, "read"); }
ZV_HARNESS(bad_wrap) { uint32_t a = zv_u32("a"), b = zv_u32("b"); zv_assume(a + b <= 100); zv_assert(a <= 100, "no wrap"); }
ZV_HARNESS(bad_free) { auto* p = new int(1); delete p; zv_assert(*p == 1, "read"); }
ZV_HARNESS(good_exc) { bool c = zv_bool("c"); int r = 0; try { if (c) throw 5; r = 1; } catch (int x) { r = x; } zv_assert(r == (c ? 5 : 1), "caught"); }
ZV_HARNESS(bad_exc) { if (zv_bool("c")) throw 5; }
ZV_HARNESS(good_str) { size_t n = zv_u64("n"); zv_assume(n < 1000); auto* p = zv_bytes("b", n); std::string s((const char*)p, n); uint64_t i = zv_u64("i"); if (i < n) zv_assert((uint8_t)s[i] == p[i], "copied"); }
