// Bus statistics against an explicit waveform: K operations (burst load of 0..MAXB beats, disable, enable, intermediate
// query) at arbitrary times with arbitrary data. -DW=<width> -DDR=<data rate> -DNOPS=<K> -DMAXB=<beats>
#include "wave.h"
#include <DRAMPower/util/bus.h>
#include <sstream>
using namespace DRAMPower; using namespace DRAMPower::util;
#ifndef MAXB
#define MAXB 2
#endif
int vp_main() {
    bool h = vp_choice("idle", 2), api = vp_choice("api", 2), en = vp_choice("enabled", 2);
    Bus<W> bus(W, DR, h ? BusIdlePatternSpec::H : BusIdlePatternSpec::L, en);
    Wave ref(W, h, en);
    bool on = en, was = false; u64 now = 0, lastoff = 0; bool fresh = true;
    for (unsigned k = 0; k < NOPS; k++) {
        now += vp_sym_bits("d", 12);
        unsigned op = vp_choice("op", 4);
        if (op == 0) { // load; while disabled it must be ignored
            unsigned n = 1 + vp_choice("beats", MAXB); std::vector<Beat> b; u64 data = 0; for (unsigned i = 0; i < W * n; i++) data |= vp_sym_bits("b", 1) << i;
            for (unsigned i = 0; i < n; i++) { Beat x; for (unsigned j = 0; j < W; j++) x.push_back(data >> (i * W + j) & 1); b.insert(b.begin(), x); } // last chunk is sent first
            if (on) { vp_assume(now * DR >= ref.freeAt()); ref.load(now * DR, b); vp_cover("load"); }
            if (api) bus.load(now, data, n);
            else { uint8_t by[8]; for (unsigned i = 0; i < 8; i++) by[i] = uint8_t(data >> (8 * i)); bus.load(now, by, n * W); }
        } else if (op == 1) { // disable
            if (on) { ref.off(now * DR); lastoff = now; on = false; vp_cover("disable"); }
            bus.disable(now);
        } else if (op == 2) { // enable
            if (!on) { vp_assume(now > lastoff); ref.on(now * DR); on = true; vp_cover("enable"); }
            bus.enable(now);
        } else {
            checkWave(bus.get_stats(now), ref.at(now * DR), "bus statistics at an intermediate query");
        }
    }
    u64 T = now + vp_sym_bits("dT", 12);
    auto st = bus.get_stats(T);
    checkWave(st, ref.at(T * DR), "bus statistics equal the waveform's");
    CHECK(st.bit_changes == st.ones_to_zeroes + st.zeroes_to_ones, "changes split into rising and falling");
    if (ref.seg.size() == 1 && on && en) CHECK(st.ones + st.zeroes == W * DR * T, "every line is either one or zero at every beat");
    return 0;
}
