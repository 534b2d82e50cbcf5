// C15: lookup is consistent and bounded.
#define ZV_FLEX
#include "leaf.h"
#include "proto.h"
using P = PF;
#include "lookup.h"
