// C04: writer/reader round trip.
#define ZV_MSGPACK
#include "leaf.h"
#include "proto.h"
#include "doc.h"
using namespace zerialize;
using P = PM;
#include "roundtrip.h"
