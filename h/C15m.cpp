// C15: lookup is consistent and bounded.
#define ZV_MSGPACK
#include "leaf.h"
#include "proto.h"
using P = PM;
#include "lookup.h"
