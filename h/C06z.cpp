// C06, Zera
#define ZV_ZERA
#include "access.h"
#include "proto.h"
ACCESS_CONTRACTS(PZ)
// on arbitrary bytes: whatever value reference the document holds, an integer accessor decodes exactly its 64 bits
ZV_HARNESS(raw_int) {
    auto b = zv::any_doc();
    try {
        Zera::Deserializer d(b); (void)d.isNull();   // throws unless the root reference lies inside the envelope
        const uint8_t* vr = b.data() + 20 + size_t(uint32_t(b[8]) | uint32_t(b[9]) << 8 | uint32_t(b[10]) << 16 | uint32_t(b[11]) << 24);
        uint64_t bits = 0; for (int i = 7; i >= 0; --i) bits = bits << 8 | vr[4 + i];
        bool intk = vr[0] == 2 || vr[0] == 8;
        if (!intk || vr[1] != 0) { if (zv_bool("u")) must_throw([&] { (void)d.asInt64(); }, "no integer from another kind"); else must_throw([&] { (void)d.asUInt64(); }, "no integer from another kind"); }
        else int_access(d, Num{vr[0] == 2 && (int64_t)bits < 0, bits}, false, false);
    } catch (const DeserializationError&) {}
}
