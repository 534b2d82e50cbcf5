// C05: writer/reader round trip.
#define ZV_FLEX
#include "leaf.h"
#include "proto.h"
#include "doc.h"
using namespace zerialize;
using P = PF;
#include "roundtrip.h"
