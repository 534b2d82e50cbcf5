// C15: lookup is consistent and bounded.
#define ZV_ZERA
#include "leaf.h"
#include "proto.h"
using P = PZ;
#include "lookup.h"
// on any bytes at all: an array of size n is indexed exactly below n
ZV_HARNESS(any_index) {
    auto b = zv::any_doc(); size_t i = zv_u64("i");
    try { PZ::Deserializer d(b); size_t n = d.arraySize(); bool thr = false; try { (void)d[i]; } catch (const DeserializationError&) { thr = true; } zv_assert(thr == (i >= n), "indexing succeeds exactly below the size"); zv_cover("indexed"); }
    catch (const DeserializationError&) {}
}
