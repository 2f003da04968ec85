// The DRAM object of one standard against a separate core and interface: one operation per position out of SKEL.
// -DSTD_<standard> -DSKEL={..},{..} [-DPARTS: commands for the core or the interface only] [-DTOG: toggling-rate mode too]
#include <vp.h>
#include "specs.h"
#include "store.h"
#include <DRAMPower/util/extensions.h>
#if defined(STD_DDR4)
#include <DRAMPower/standards/ddr4/DDR4.h>
#include <DRAMPower/standards/ddr4/core_calculation_DDR4.h>
#include <DRAMPower/standards/ddr4/interface_calculation_DDR4.h>
#define RAW ddr4
#define NS(x) x##_DDR4
typedef DRAMPower::MemSpecDDR4 M; typedef DRAMPower::DDR4 Dram; typedef DRAMPower::DDR4Core Core; typedef DRAMPower::DDR4Interface Iface;
#elif defined(STD_DDR5)
#include <DRAMPower/standards/ddr5/DDR5.h>
#include <DRAMPower/standards/ddr5/core_calculation_DDR5.h>
#include <DRAMPower/standards/ddr5/interface_calculation_DDR5.h>
#define RAW ddr5
#define NS(x) x##_DDR5
typedef DRAMPower::MemSpecDDR5 M; typedef DRAMPower::DDR5 Dram; typedef DRAMPower::DDR5Core Core; typedef DRAMPower::DDR5Interface Iface;
#elif defined(STD_LPDDR4)
#include <DRAMPower/standards/lpddr4/LPDDR4.h>
#include <DRAMPower/standards/lpddr4/core_calculation_LPDDR4.h>
#include <DRAMPower/standards/lpddr4/interface_calculation_LPDDR4.h>
#define RAW lpddr4
#define NS(x) x##_LPDDR4
typedef DRAMPower::MemSpecLPDDR4 M; typedef DRAMPower::LPDDR4 Dram; typedef DRAMPower::LPDDR4Core Core; typedef DRAMPower::LPDDR4Interface Iface;
#elif defined(STD_LPDDR5)
#include <DRAMPower/standards/lpddr5/LPDDR5.h>
#include <DRAMPower/standards/lpddr5/core_calculation_LPDDR5.h>
#include <DRAMPower/standards/lpddr5/interface_calculation_LPDDR5.h>
#define RAW lpddr5
#define NS(x) x##_LPDDR5
typedef DRAMPower::MemSpecLPDDR5 M; typedef DRAMPower::LPDDR5 Dram; typedef DRAMPower::LPDDR5Core Core; typedef DRAMPower::LPDDR5Interface Iface;
#else
#include <DRAMPower/standards/lpddr6/LPDDR6.h>
#include <DRAMPower/standards/lpddr6/core_calculation_LPDDR6.h>
#include <DRAMPower/standards/lpddr6/interface_calculation_LPDDR6.h>
#define RAW lpddr6
#define NS(x) x##_LPDDR6
typedef DRAMPower::MemSpecLPDDR6 M; typedef DRAMPower::LPDDR6 Dram; typedef DRAMPower::LPDDR6Core Core; typedef DRAMPower::LPDDR6Interface Iface;
#endif
#ifndef GAP
#define GAP 0
#endif
using namespace DRAMPower;
typedef uint64_t u64; typedef CmdType C;
#ifdef STD_DDR5
enum { HASDBI = 0 };
#else
enum { HASDBI = 1 };
#endif
#if defined(STD_LPDDR6)
enum { DQW = 12, BL = 24, META = 1 };
#else
enum { DQW = 8, BL = 2, META = 0 };
#endif
#if defined(STD_LPDDR5)
enum { NB = 8, NG = 1 };
#else
enum { NB = 2, NG = 1 };
#endif
enum Op { ACT_, RD_, WR_, RDA_, PREA_, REFA_, PDEP_, PDXP_, DBI_, META_, QUERY, SAVE, COPY, COPYSRC, MOVE };
static const std::vector<std::vector<Op>> skel = {SKEL};
static const C types[] = {C::ACT, C::RD, C::WR, C::RDA, C::PREA, C::REFA, C::PDEP, C::PDXP};

static M* spec() { auto s = raw::RAW(Arch{NB, NG, 2, 1, DQW, BL, 2}); auto& p = s.mempowerspec; p.vddq = 1;
#if defined(STD_DDR4) || defined(STD_DDR5)
    p.vdd = 2; p.idd0 = 50; p.idd2n = 30; p.idd3n = 35; p.idd4r = 90; p.idd4w = 95; p.vpp = 1; p.ipp0 = 7; p.idd2p = 15; p.idd3p = 18; p.idd6n = 9;
#else
    p.vdd1 = 2; p.idd01 = 50; p.idd2n1 = 30; p.idd3n1 = 35; p.idd4r1 = 90; p.idd4w1 = 95; p.idd51 = 80; p.idd2p1 = 15; p.idd3p1 = 18; p.idd61 = 9;
#endif
    return new M(s); }
struct Ref { Core core; Iface ifc; bool dbi = false; uint16_t m1 = 0, m2 = 0; Ref(const M& m, const config::SimConfig& c) : core(m), ifc(m, c) {}
    SimulationStats at(timestamp_t t) { SimulationStats s; core.getWindowStats(t, s); ifc.getWindowStats(t, s); return s; } };
static bool dbiState(Dram& d) { bool e = false, seen = false; d.getExtensionManager().template withExtension<extensions::DBI>([&](auto& x) { e = x.isEnabled(); seen = true; }); CHECK(seen == (bool)HASDBI, "the DBI extension is present exactly for standards with data bus inversion"); return e; }
static void compare(Dram& d, Ref& r, timestamp_t t, const char* what) {
    SimulationStats a = d.getWindowStats(t), b = r.at(t);
    CHECK(a == b, what); CHECK(dbiState(d) == r.dbi, "the DBI extension reports the state it was set to");
#if defined(STD_LPDDR6)
    d.getExtensionManager().template withExtension<extensions::MetaData>([&](auto& x) { auto m = x.getMetaData(); CHECK(std::get<0>(m) == r.m1 && std::get<1>(m) == r.m2, "the metadata extension reports the values it was set to"); });
#endif
    vp_log("clk", a.clockStats.zeroes); vp_log("act", a.bank[0].cycles.act); vp_log("ca", a.commandBus.ones);
}
static void same(const interface_energy_info_t& a, const interface_energy_info_t& b, const char* m) { vp_assert_req(a.controller.dynamicEnergy, b.controller.dynamicEnergy, m); vp_assert_req(a.controller.staticEnergy, b.controller.staticEnergy, m); vp_assert_req(a.dram.dynamicEnergy, b.dram.dynamicEnergy, m); vp_assert_req(a.dram.staticEnergy, b.dram.staticEnergy, m); }
int vp_main() {
    config::SimConfig cfg; 
#ifdef TOG
    unsigned tog = vp_choice("toggle", 2);
#else
    unsigned tog = 0;
#endif
   
    if (tog) cfg.toggleRateDefinition = DRAMUtils::Config::ToggleRateDefinition{0.5, 0.25, 0.5, 0.25, DRAMUtils::Config::TogglingRateIdlePattern::L, DRAMUtils::Config::TogglingRateIdlePattern::H};
    M* ms = spec(); const M keep = *ms;
    Dram* d = new Dram(*ms, cfg); delete ms; ms = nullptr; // the object keeps what it needs
    Ref* r = new Ref(keep, cfg);
    auto ac = d->getCLIArchitectureConfig(); CHECK(ac.deviceCount == 1 && ac.rankCount == 2 && ac.bankCount == NB, "architecture of the specification");
    timestamp_t t = 0, free_at = 0; bool pd = false, asked = false; Dram* other = nullptr; Ref* oref = nullptr; timestamp_t clast = 0, ilast = 0;
    for (unsigned i = 0; i < skel.size(); i++) {
        Op o = skel[i][vp_choice("op", skel[i].size())];
        enum { CMD, COREONLY, IFONLY } part = CMD;
#ifdef PARTS
        part = (decltype(part))vp_choice("part", 3);
#endif
        switch (o) {
        case ACT_: case RD_: case WR_: case RDA_: case PREA_: case REFA_: case PDEP_: case PDXP_: {
            t += GAP + vp_sym_bits("dt", 8); C c = types[o];
            bool rd = c == C::RD || c == C::RDA, wr = c == C::WR;
            vp_assume(pd == (c == C::PDXP));
            TargetCoordinate tc(1, 0, i & 1); for (int k = 0; k < 4; k++) { tc.row |= vp_sym_bits("r", 1) << k; tc.column |= vp_sym_bits("c", 1) << k; }
            uint8_t* data = nullptr; unsigned bits = 0;
            if (rd || wr) { bits = DQW * BL; data = new uint8_t[(bits + 7) / 8]; for (unsigned k = 0; k < (bits + 7) / 8; k++) { data[k] = 0; for (int b = 0; b < 8; b++) data[k] |= (k < 2 ? vp_sym_bits("b", 1) : (k + b) & 1) << b; } vp_assume(t >= free_at); free_at = t + BL / 2; }
            Command cmd(t, c, tc, data, bits);
            if (part != IFONLY) { r->core.doCommand(cmd); clast = t; }
            if (part != COREONLY) {
#if defined(STD_LPDDR6)
                r->ifc.doCommand(LPDDR6Command(cmd));
#else
                r->ifc.doCommand(cmd);
#endif
                ilast = t; }
            if (part == CMD) { if (i & 1) d->doCoreInterfaceCommand(cmd); else d->doCommand(cmd); } else if (part == COREONLY) d->doCoreCommand(cmd); else d->doInterfaceCommand(cmd);
            if (c == C::PDEP) pd = true; if (c == C::PDXP) pd = false;
            vp_cover("command"); break; }
#if !defined(STD_DDR5)
        case DBI_: { bool e = vp_choice("dbi", 2); d->getExtensionManager().template withExtension<extensions::DBI>([&](auto& x) { CHECK(x.enable(t, e), "enabling DBI is accepted"); }); r->ifc.enableDBI(e); r->dbi = e; vp_cover("dbi"); break; }
#endif
#if defined(STD_LPDDR6)
        case META_: { uint16_t a = 0, b = 0; for (int k = 0; k < 16; k++) { a |= vp_sym_bits("m", 1) << k; b |= vp_sym_bits("m", 1) << k; } d->getExtensionManager().template withExtension<extensions::MetaData>([&](auto& x) { x.setMetaData(a, b); }); r->ifc.setMetaData(a, b); r->m1 = a; r->m2 = b; vp_cover("metadata"); break; }
#endif
        case QUERY: { t += vp_sym_bits("dq", 8); SimulationStats s = d->getWindowStats(t); d->calcCoreEnergy(t); (void)d->getTotalEnergy(t); asked = true; vp_cover("query"); break; } // must not disturb anything
        case SAVE: {
            CHECK(d->isSerializable() == d->getCore().isSerializable() && (asked || d->isSerializable() == r->core.isSerializable()), "serialisable exactly when the core is"); if (!d->isSerializable()) break;
            Store s; d->serialize(s.out()); delete d; d = new Dram(keep, cfg); d->deserialize(s.in()); CHECK(s.all_read(), "the checkpoint is read completely"); vp_cover("restored"); break; }
        case COPY: case COPYSRC: { // go on with the copy (or the original); the other one must stay where it is
            vp_assume(!other); Dram* c = new Dram(*d); oref = new Ref(*r);
            if (o == COPY) { other = d; d = c; } else other = c;
            if (vp_choice("drop", 2)) { delete other; other = nullptr; delete oref; } vp_cover("copied"); break; }
        case MOVE: { Dram* c = new Dram(std::move(*d)); delete d; d = c; vp_cover("moved"); break; }
        default: break;
        }
    }
    { timestamp_t l = d->getLastCommandTime(), c = r->core.getLastCommandTime(), f = r->ifc.getLastCommandTime(), x = clast > ilast ? clast : ilast; CHECK(asked ? l >= x && l <= t : l == (c > f ? c : f), "time of the last command (an effect carried out since counts as a command)"); }
    vp_log("t", t);
    if (vp_choice("final", 2)) { SimulationStats a = d->getStats(), b = r->at(d->getLastCommandTime()); CHECK(a == b, "getStats reports the statistics at the last command"); vp_cover("getStats"); return 0; }
    t += vp_sym_bits("end", 10);
    compare(*d, *r, t, "statistics of the core and the interface");
    if (other) compare(*other, *oref, t, "the other copy is unaffected");
    SimulationStats s = d->getWindowStats(t);
    energy_t ce = NS(Calculation)(keep).calcEnergy(s), c2 = d->calcCoreEnergy(t), c3 = d->calcCoreEnergyStats(s); interface_energy_info_t ie = NS(InterfaceCalculation)(keep).calculateEnergy(s);
    CHECK(ce.bank_energy.size() == c2.bank_energy.size() && ce.bank_energy.size() == c3.bank_energy.size(), "banks");
    vp_assert_req(c2.total(), ce.total(), "core energy at a time"); vp_assert_req(c3.total(), ce.total(), "core energy of statistics");
    same(d->calcInterfaceEnergy(t), ie, "interface energy at a time"); same(d->calcInterfaceEnergyStats(s), ie, "interface energy of statistics");
    vp_assert_req(d->getTotalEnergy(t), ce.total() + ie.total(), "total energy"); vp_cover("energy");
    return 0;
}
