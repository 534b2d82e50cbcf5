// C01: Zera reader is memory-safe and total on arbitrary bytes.
#define ZV_ZERA
#include "reader.h"
#include "proto.h"
#include "doc.h"
using namespace zerialize;
READER_CONTRACTS(Zera::Deserializer)
CHILD_CONTRACTS(Zera::Deserializer)
#ifndef ZV_SYMBOLIC
WALK_CONTRACT(PZ)
#endif
