// Data bus inversion object against an independent reference: NOPS operations (update of either direction, reset, enable,
// checkpoint) with arbitrary times and data. -DT=<data type> -DSUB=<entries per chunk> -DIDLE=H|L [-DTHR=<dynamic threshold>]
// [-DCPW=<chunks per beat>, absent: absolute chunk mode] -DMAXB=<beats (or chunks) per burst>
#include <vp.h>
#include "store.h"
#include <vector>
#include <DRAMPower/util/dbi.h>
using namespace DRAMPower; using namespace DRAMPower::util;
typedef uint64_t u64;
#ifdef THR
typedef DynamicDBI<THR> Algo;
#else
typedef StaticDBI Algo;
#endif
typedef DBI<T, SUB, PinState::IDLE, Algo> D;
static const unsigned CB = 8 * sizeof(T) * SUB; // bits per chunk
#ifdef CPW
static const unsigned PER = CPW;
#else
static const unsigned PER = 1;
#endif
static const u64 BLEN = 4; // burst length in absolute chunk mode
struct Call { u64 load, t, chunk; bool inv, rd; };
typedef std::vector<u64> Bits;
struct Dir { bool any = false; u64 end = 0; std::vector<u64> inv; Bits last; };
int vp_main() {
    std::vector<Call> got, want;
    auto cb = [&](timestamp_t l, timestamp_t t, std::size_t c, bool inv, bool rd) { got.push_back({l, t, c, inv, rd}); };
    bool on = vp_choice("enabled", 2);
#ifdef CPW
    auto make = [&] { return new D(PER * CB, BLEN, cb, on); };
#else
    auto make = [&] { return new D(std::nullopt, BLEN, cb, on); };
#endif
    D* d = make(); Dir dir[2]; u64 now = 0;
    const u64 idle = PinState::IDLE == PinState::H;
    auto reset = [&](u64 t, int rd) {
        Dir& q = dir[rd];
        if (!q.any || !vp_fork(t > q.end)) return;
        for (unsigned p = 0; p < q.inv.size(); p++) { if (q.inv[p]) want.push_back({t, q.end, p, false, rd == 1}); q.inv[p] = 0; }
    };
    for (unsigned k = 0; k < NOPS; k++) {
        now += vp_sym_bits("d", 8);
        switch (k == 0 ? 0 : vp_choice("op", 4)) { // before the first burst the others do nothing
        case 0: {
            bool rd = vp_choice("read", 2); unsigned beats = 1 + vp_choice("beats", MAXB), chunks = beats * PER; Dir& q = dir[rd];
            if (q.any) vp_assume(now >= q.end);
            std::vector<T> data(chunks * SUB); Bits v(chunks * CB);
            for (unsigned i = 0; i < v.size(); i++) { v[i] = vp_sym_bits("b", 1); data[i / (8 * sizeof(T))] |= T(T(v[i]) << (i % (8 * sizeof(T)))); }
            auto r = d->updateDBI(now, chunks * CB, data.data(), rd);
            CHECK(r.has_value() == on, "data is converted exactly when enabled");
            if (!on) break;
            reset(now, rd);
            bool seam = q.any && vp_fork(now == q.end);
            std::vector<u64> inv(chunks);
            for (unsigned c = 0; c < chunks; c++) {
#ifdef THR
                u64 cost = 0;
                for (unsigned i = 0; i < CB; i++) { unsigned x = c * CB + i; u64 prev = c >= PER ? v[x - PER * CB] : seam ? q.last[x] : idle; cost += v[x] ^ prev; }
#ifdef CPW
                inv[c] = vp_fork(cost > THR);
#else
                inv[c] = 0; // without a width there is no previous beat to compare with
#endif
#else
                u64 ones = 0; for (unsigned i = 0; i < CB; i++) ones += v[c * CB + i];
                inv[c] = vp_fork(idle ? 2 * ones < CB : 2 * ones > CB);
#endif
                if (inv[c]) for (unsigned i = 0; i < CB; i++) v[c * CB + i] ^= 1;
#ifdef CPW
                want.push_back({now, now + c / PER, c % PER, inv[c] != 0, rd});
#else
                want.push_back({now, now, c, inv[c] != 0, rd});
#endif
            }
            for (unsigned i = 0; i < v.size(); i++) CHECK(((*r)[i / (8 * sizeof(T))] >> (i % (8 * sizeof(T))) & 1) == v[i], "converted data");
            q.any = true;
#ifdef CPW
            q.end = now + beats; q.inv.assign(inv.end() - PER, inv.end());
#else
            q.end = now + BLEN; q.inv = inv;
#endif
            q.last.assign(v.end() - PER * CB, v.end());
            const auto& st = rd ? d->getInversionStateRead() : d->getInversionStateWrite();
            CHECK(st.size() >= chunks, "inversion state covers the burst");
            for (unsigned c = 0; c < chunks && c < st.size(); c++) CHECK(st[c] == (inv[c] != 0), "inversion state");
            vp_cover(rd ? "read" : "write");
            break; }
        case 1: d->dispatchResetCallback(now); reset(now, 1); reset(now, 0); vp_cover("reset"); break;
        case 2: on = !on; d->enable(on); CHECK(d->isEnabled() == on, "enabled"); break;
        case 3: { Store s; d->serialize(s.out()); D* n = make(); n->deserialize(s.in()); CHECK(s.all_read(), "the checkpoint is read completely"); delete d; d = n; vp_cover("restored"); break; }
        }
        for (int rd = 0; rd < 2; rd++) { auto e = d->getLastBurstEnd(rd); CHECK(e.has_value() == dir[rd].any && (!e || *e == dir[rd].end), "end of the last burst"); }
    }
    CHECK(got.size() == want.size(), "number of pin changes"); vp_log("n", got.size());
    for (unsigned i = 0; i < got.size() && i < want.size(); i++) {
        auto &g = got[i], &w = want[i];
        CHECK(g.load == w.load && g.t == w.t && g.chunk == w.chunk && g.rd == w.rd, "pin change: time, pin and direction");
        CHECK(g.inv == w.inv, "pin change: state"); vp_log("t", g.t);
    }
    return 0;
}
