// C17: owning readers stay valid.
#define ZV_ZERA
#include "leaf.h"
#include "proto.h"
using P = PZ;
#include "owning.h"
