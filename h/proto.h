#pragma once
#ifdef ZV_ZERA
#include <zerialize/protocols/zera.hpp>
struct PZ : zerialize::Zera { static constexpr bool SignExact = true; static constexpr bool CrossSign = true; static constexpr bool NulKeys = true; static constexpr bool AnyLen = true; };
#endif
#ifdef ZV_MSGPACK
#include <zerialize/protocols/msgpack.hpp>
struct PM : zerialize::MsgPack { static constexpr bool SignExact = false; static constexpr bool CrossSign = true; static constexpr bool NulKeys = true; static constexpr bool AnyLen = true; };
#endif
#ifdef ZV_FLEX
#include "rbtree.h"
#include <zerialize/protocols/flex.hpp>
struct PF : zerialize::Flex { static constexpr bool SignExact = true; static constexpr bool CrossSign = false; static constexpr bool NulKeys = false; static constexpr bool AnyLen = false; };
#endif
