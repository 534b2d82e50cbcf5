// C16: views alias the document.
#define ZV_FLEX
#include "leaf.h"
#include "proto.h"
using P = PF;
#include "alias.h"
