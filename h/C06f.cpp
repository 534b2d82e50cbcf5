// C06, Flex
#define ZV_FLEX
#include "access.h"
#include "proto.h"
ACCESS_CONTRACTS(PF)
