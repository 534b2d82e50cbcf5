// C17: owning readers stay valid.
#define ZV_MSGPACK
#include "leaf.h"
#include "proto.h"
using P = PM;
#include "owning.h"
