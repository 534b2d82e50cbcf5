// C17: owning readers stay valid.
#define ZV_FLEX
#include "leaf.h"
#include "proto.h"
using P = PF;
#include "owning.h"
