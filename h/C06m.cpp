// C06, MessagePack
#define ZV_MSGPACK
#include "access.h"
#include "proto.h"
ACCESS_CONTRACTS(PM)
// on arbitrary bytes: every integer encoding of the format, whoever wrote it
ZV_HARNESS(raw_int) {
    auto b = zv::any_doc();
    MsgPack::Deserializer d(b);
    if (b.empty()) { must_throw([&] { (void)d.asInt64(); }, "no integer in an empty view"); return; }
    uint8_t m = b[0]; size_t w = 0; bool sg = false; Num x{false, 0};
    if (m <= 0x7f) x.bits = m;
    else if (m >= 0xe0) x = Num{true, (uint64_t)(int64_t)(int8_t)m};
    else if (m >= 0xcc && m <= 0xcf) w = size_t(1) << (m - 0xcc);
    else if (m >= 0xd0 && m <= 0xd3) { w = size_t(1) << (m - 0xd0); sg = true; }
    else { if (zv_bool("u")) must_throw([&] { (void)d.asInt64(); }, "no integer from another kind"); else must_throw([&] { (void)d.asUInt64(); }, "no integer from another kind"); return; }
    if (b.size() < 1 + w) { if (zv_bool("u")) must_throw([&] { (void)d.asInt64(); }, "a truncated integer throws"); else must_throw([&] { (void)d.asUInt64(); }, "a truncated integer throws"); return; }
    switch (w) { case 1: x.bits = b[1]; break; case 2: x.bits = uint64_t(b[1]) << 8 | b[2]; break;
    case 4: for (int i = 1; i <= 4; ++i) x.bits = x.bits << 8 | b[i]; break;
    case 8: for (int i = 1; i <= 8; ++i) x.bits = x.bits << 8 | b[i]; break; default: break; }
    if (sg) { if (w == 1) x.bits = (uint64_t)(int64_t)(int8_t)x.bits; if (w == 2) x.bits = (uint64_t)(int64_t)(int16_t)x.bits; if (w == 4) x.bits = (uint64_t)(int64_t)(int32_t)x.bits; x.neg = (int64_t)x.bits < 0; }
    int_access(d, x, false, false);
}
