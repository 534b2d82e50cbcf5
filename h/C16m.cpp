// C16: views alias the document.
#define ZV_MSGPACK
#include "leaf.h"
#include "proto.h"
using P = PM;
#include "alias.h"
