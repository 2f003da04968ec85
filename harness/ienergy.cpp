// Interface energy: for arbitrary pin statistics, impedances, voltage and clock period, the controller/dram static and
// dynamic interface energies equal the termination model: a terminated bus dissipates V^2/R in its terminating level
// (zeroes for DDR, ones for LPDDR) for one beat time per bit, and every rising edge costs the dynamic energy.
#include <vp.h>
#include "specs.h"
#include <vector>
#if defined(STD_DDR4)
#include <DRAMPower/memspec/MemSpecDDR4.h>
#include <DRAMPower/standards/ddr4/interface_calculation_DDR4.h>
#elif defined(STD_DDR5)
#include <DRAMPower/memspec/MemSpecDDR5.h>
#include <DRAMPower/standards/ddr5/interface_calculation_DDR5.h>
#elif defined(STD_LPDDR4)
#include <DRAMPower/memspec/MemSpecLPDDR4.h>
#include <DRAMPower/standards/lpddr4/interface_calculation_LPDDR4.h>
#elif defined(STD_LPDDR5)
#include <DRAMPower/memspec/MemSpecLPDDR5.h>
#include <DRAMPower/standards/lpddr5/interface_calculation_LPDDR5.h>
#elif defined(STD_LPDDR6)
#include <DRAMPower/memspec/MemSpecLPDDR6.h>
#include <DRAMPower/standards/lpddr6/interface_calculation_LPDDR6.h>
#endif
using namespace DRAMPower;
typedef uint64_t u64;
static double R(const char* n) { return vp_sym_real(n); }
static double Pos(const char* n) { double v = vp_sym_real(n); vp_assume(v > 0); return v; }
static u64 I(const char* n, unsigned bits = 32) { return vp_sym_bits(n, bits); }
static bool g_term; static u64 mask, bitNo;
static bool T() { return (mask >> bitNo++) & 1; }
static void anyStats(util::bus_stats_t& s) { s.ones = I("ones"); s.zeroes = I("zeroes"); s.ones_to_zeroes = I("o2z"); s.zeroes_to_ones = I("z2o"); s.bit_changes = I("bc"); }

struct Line { bool term; double Req, E; };
static double stat(const Line& l, const util::bus_stats_t& s, double V, double beat) {
    if (!l.term) return 0;
#if defined(STD_DDR4) || defined(STD_DDR5)
    double n = (double)s.zeroes;
#else
    double n = (double)s.ones;
#endif
    return n * beat * V * V / l.Req;
}
static double dyn(const Line& l, const util::bus_stats_t& s) { return (double)s.zeroes_to_ones * l.E; }
#define LINE(n) {f.n##_termination = n.term = T(); f.n##_R_eq = n.Req = Pos(#n "_R"); f.n##_dyn_E = n.E = R(#n "_E");}

int vp_main() {
    // terminations: all, none, and two alternating patterns
    static const u64 masks[] = {~0ull, 0, 0x5555, 0xaaaa, 0x3333, 0xcccc};
    mask = masks[vp_choice("term", 6)]; bitNo = 0;
    u64 width = vp_choice("width", 2) ? 16 : 8;
    static const u64 drs[] = {2, 1, 8}; u64 dr = drs[vp_choice("dr", 3)];
    Arch a{2, 1, 2, 1, width, 8, dr};
    Line ck{}, ca{}, rdq{}, wdq{}, rdqs{}, wdqs{}, rdbi{}, wdbi{}, wck{};
    double tCK = R("tCK"), V = R("vddq"), tWCK = 0; u64 dqsRate = dr, caRate = 1; (void)wck; (void)wdqs; (void)rdbi; (void)wdbi; (void)tWCK;
#if defined(STD_DDR4)
    auto s = raw::ddr4(a); auto& f = s.memimpedancespec; LINE(ck) LINE(ca) LINE(rdq) LINE(wdq) LINE(rdqs) LINE(wdqs) LINE(rdbi) LINE(wdbi)
    auto& pp = s.prepostamble; pp.read_zeroes = R("ppr0"); pp.write_zeroes = R("ppw0"); pp.read_ones = R("ppr1"); pp.write_ones = R("ppw1");
    pp.read_zeroes_to_ones = I("ppr01", 4); pp.write_zeroes_to_ones = I("ppw01", 4); pp.read_ones_to_zeroes = I("ppr10", 4); pp.write_ones_to_zeroes = I("ppw10", 4);
#elif defined(STD_DDR5)
    auto s = raw::ddr5(a); auto& f = s.memimpedancespec; LINE(ck) LINE(ca) LINE(rdq) LINE(wdq) LINE(rdqs) LINE(wdqs)
    dqsRate = 2; if (dr != 2) { dqsRate = dr == 8 ? 4 : 3; s.dataratespec = DRAMUtils::MemSpec::DataRateSpecTypeDDR5{}; s.dataratespec->ca_bus_rate = 5; s.dataratespec->dq_bus_rate = 7; s.dataratespec->dqs_bus_rate = dqsRate; }
#elif defined(STD_LPDDR4)
    auto s = raw::lpddr4(a); auto& f = s.memimpedancespec; LINE(ck) LINE(ca) LINE(rdq) LINE(wdq) LINE(rdqs) LINE(wdqs) LINE(rdbi) LINE(wdbi)
#elif defined(STD_LPDDR5)
    a.banks = 16; auto s = raw::lpddr5(a); auto& f = s.memimpedancespec; LINE(ck) LINE(ca) LINE(rdq) LINE(wdq) LINE(rdqs) LINE(wck) LINE(rdbi) LINE(wdbi)
    caRate = 2; s.memtimingspec.WCK2CK = dr == 8 ? 4 : 2; tWCK = tCK / (double)s.memtimingspec.WCK2CK;
#else
    auto s = raw::lpddr6(a); auto& f = s.memimpedancespec; LINE(ck) LINE(ca) LINE(rdq) LINE(wdq) LINE(rdqs) LINE(wck)
    caRate = 2; s.memtimingspec.WCK2CK = dr == 8 ? 4 : 2; tWCK = tCK / (double)s.memtimingspec.WCK2CK;
#endif
    s.memtimingspec.tCK = tCK; s.mempowerspec.vddq = V;
    SimulationStats st; st.rank_total.resize(2); st.bank.resize(4);
    for (auto* x : {&st.commandBus, &st.readBus, &st.writeBus, &st.clockStats, &st.wClockStats, &st.readDBI, &st.writeDBI, &st.togglingStats.read, &st.togglingStats.write, &st.readDQSStats, &st.writeDQSStats}) anyStats(*x);
    for (auto& r : st.rank_total) {
        r.counter.reads = I("rd", 20); r.counter.writes = I("wr", 20); r.counter.readAuto = I("rda", 20); r.counter.writeAuto = I("wra", 20);
        r.prepos.readSeamless = I("rs", 20); r.prepos.writeSeamless = I("ws", 20); vp_assume(r.prepos.readSeamless <= r.counter.reads + r.counter.readAuto); vp_assume(r.prepos.writeSeamless <= r.counter.writes + r.counter.writeAuto);
    }
#if defined(STD_DDR4)
    MemSpecDDR4 ms(s); InterfaceCalculation_DDR4 calc(ms);
#elif defined(STD_DDR5)
    MemSpecDDR5 ms(s); InterfaceCalculation_DDR5 calc(ms);
#elif defined(STD_LPDDR4)
    MemSpecLPDDR4 ms(s); InterfaceCalculation_LPDDR4 calc(ms);
#elif defined(STD_LPDDR5)
    MemSpecLPDDR5 ms(s); InterfaceCalculation_LPDDR5 calc(ms);
#else
    MemSpecLPDDR6 ms(s); InterfaceCalculation_LPDDR6 calc(ms);
#endif
    interface_energy_info_t e = calc.calculateEnergy(st);

    const double beat = tCK / (double)dr, dqsBeat = tCK / (double)dqsRate;
    double cs = stat(ck, st.clockStats, V, tCK / 2) + stat(ca, st.commandBus, V, tCK / (double)caRate) + stat(wdq, st.writeBus, V, beat) + stat(wdq, st.togglingStats.write, V, beat);
    double cd = dyn(ck, st.clockStats) + dyn(ca, st.commandBus) + dyn(wdq, st.writeBus) + dyn(wdq, st.togglingStats.write);
    double ds = stat(rdq, st.readBus, V, beat) + stat(rdq, st.togglingStats.read, V, beat) + stat(rdqs, st.readDQSStats, V, dqsBeat);
    double dd = dyn(rdq, st.readBus) + dyn(rdq, st.togglingStats.read) + dyn(rdqs, st.readDQSStats);
#if defined(STD_LPDDR5) || defined(STD_LPDDR6)
    cs += stat(wck, st.wClockStats, V, tWCK / 2); cd += dyn(wck, st.wClockStats);
#else
    cs += stat(wdqs, st.writeDQSStats, V, dqsBeat); cd += dyn(wdqs, st.writeDQSStats);
#endif
#if defined(STD_DDR4) || defined(STD_LPDDR4) || defined(STD_LPDDR5)
    cs += stat(wdbi, st.writeDBI, V, beat); cd += dyn(wdbi, st.writeDBI); ds += stat(rdbi, st.readDBI, V, beat); dd += dyn(rdbi, st.readDBI);
#endif
#if defined(STD_DDR4) // pre- and postambles of the non-seamless bursts, on one DQS pair per byte
    u64 nr = 0, nw = 0;
    for (auto& r : st.rank_total) { nr += r.counter.reads + r.counter.readAuto - r.prepos.readSeamless; nw += r.counter.writes + r.counter.writeAuto - r.prepos.writeSeamless; }
    double pairs = width == 16 ? 2 : 1;
    if (wdqs.term) { cs += pairs * s.prepostamble.write_zeroes * (double)nw * tCK * V * V / wdqs.Req; cd += pairs * (double)s.prepostamble.write_zeroes_to_ones * (double)nw * wdqs.E; }
    if (rdqs.term) { ds += pairs * s.prepostamble.read_zeroes * (double)nr * tCK * V * V / rdqs.Req; dd += pairs * (double)s.prepostamble.read_zeroes_to_ones * (double)nr * rdqs.E; }
#endif
    vp_assert_req(e.controller.dynamicEnergy, cd, "controller dynamic energy"); vp_assert_req(e.dram.dynamicEnergy, dd, "dram dynamic energy");
    vp_assert_req(e.controller.staticEnergy, cs, "controller static energy"); vp_assert_req(e.dram.staticEnergy, ds, "dram static energy");
    vp_assert_req(e.total(), e.controller.staticEnergy + e.dram.staticEnergy + e.controller.dynamicEnergy + e.dram.dynamicEnergy, "interface total");
    vp_log_real("cs", e.controller.staticEnergy); vp_log_real("dd", e.dram.dynamicEnergy);
    vp_cover("end");
    return 0;
}
