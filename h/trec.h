// A writer that records one tensor: array(3) { integer dtype, array of extents, binary data }, and nothing else.
// Together with the round-trip contracts of the formats (C03..C05) the recorded document is the one a reader sees.
#pragma once
#include "tensor.h"
struct TRec {
    int st = 0, kinds[4]; uint64_t dims[4], rank = 0, want = 0; int code = -1; uint8_t* copy = nullptr; size_t n = 0; uint64_t pre = 0;
    void step(bool c, const char* l) { zv_assert(c, l); if (!c) zv_assume(false); }
    void bad() { step(false, "a tensor holds integers, one array and one blob only"); }
    void null() { bad(); } void boolean(bool) { bad(); } void double_(double) { bad(); } void string(std::string_view) { bad(); }
    void begin_map(size_t) { bad(); } void end_map() { bad(); } void key(std::string_view) { bad(); }
    void begin_array(size_t k) { if (st == 0) { step(k == 3, "a tensor is an array of three"); st = 1; } else { step(st == 2, "the extents follow the dtype"); step(k <= 4, "the rank is the tensor's"); want = k; st = 3; } }
    void end_array() { if (st == 3) { step(rank == want, "the declared rank is the number of extents"); st = 4; } else { step(st == 5, "the data follows the extents"); st = 6; } }
    void integer(int k, uint64_t v) { if (st == 1) { step(k == TK_INT, "the dtype is a signed integer"); code = (int)v; st = 2; } else { step(st == 3 && rank < want, "as many extents as declared"); kinds[rank] = k; dims[rank++] = v; } }
    void int64(int64_t v) { integer(TK_INT, (uint64_t)v); } void uint64(uint64_t v) { integer(TK_UINT, v); }
    // the document's own copy of the data, at any alignment
    void binary(std::span<const std::byte> s) { step(st == 4, "the data follows the extents"); n = s.size(); copy = (uint8_t*)::operator new(n + pre) + pre; if (n) memcpy(copy, s.data(), n); st = 5; }
    TDoc doc() { step(st == 6, "the whole tensor is emitted"); TDoc d{}; d.rk = d.sk = TK_ARR; d.rn = 3; d.dk = TK_INT; d.dv = (uint64_t)(int64_t)code; d.sn = rank; d.bk = TK_BIN; d.p = copy; d.n = n; d.dims = dims; d.kinds = kinds; return d; }
    void gone() { ::operator delete(copy - pre); }
};
