// C16: views alias the document.
#define ZV_ZERA
#include "leaf.h"
#include "proto.h"
using P = PZ;
#include "alias.h"
