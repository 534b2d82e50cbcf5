// C03: writer/reader round trip.
#define ZV_ZERA
#include "leaf.h"
#include "proto.h"
#include "doc.h"
using namespace zerialize;
using P = PZ;
#include "roundtrip.h"
