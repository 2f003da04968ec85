// Statistics and energy objects as values: equality, addition, serialisation, totals.
#include <vp.h>
#include "store.h"
#include <vector>
#include <DRAMPower/data/stats.h>
#include <DRAMPower/data/energy.h>
using namespace DRAMPower;
typedef uint64_t u64;
typedef std::vector<u64*> F;
static void f_bus(util::bus_stats_t& b, F& f) { f.push_back(&b.ones); f.push_back(&b.zeroes); f.push_back(&b.bit_changes); f.push_back(&b.ones_to_zeroes); f.push_back(&b.zeroes_to_ones); }
static void f_cyc(CycleStats& c, F& f) {
    auto& k = c.counter; for (u64* p : {&k.act, &k.pre, &k.reads, &k.writes, &k.refAllBank, &k.refPerBank, &k.refPerTwoBanks, &k.refDualBanks, &k.refSameBank, &k.readAuto, &k.writeAuto}) f.push_back(p);
    auto& y = c.cycles; for (u64* p : {&y.act, &y.pre, &y.powerDownAct, &y.powerDownPre, &y.selfRefresh, &y.deepSleepMode}) f.push_back(p);
    auto& z = c.prepos; for (u64* p : {&z.readMerged, &z.readMergedTime, &z.writeMerged, &z.writeMergedTime, &z.readSeamless, &z.writeSeamless}) f.push_back(p);
}
static void f_sim(SimulationStats& s, F& f) {
    for (auto* b : {&s.commandBus, &s.readBus, &s.writeBus, &s.clockStats, &s.wClockStats, &s.readDBI, &s.writeDBI, &s.togglingStats.read, &s.togglingStats.write, &s.readDQSStats, &s.writeDQSStats}) f_bus(*b, f);
    for (auto& b : s.bank) f_cyc(b, f);
    for (auto& r : s.rank_total) f_cyc(r, f);
}
static void sym(F& f) { for (u64* p : f) *p = vp_sym_bits("v", 64); }
typedef std::vector<double*> D;
static D f_en(energy_info_t& e) { return {&e.E_act, &e.E_pre, &e.E_bg_act, &e.E_bg_pre, &e.E_RD, &e.E_WR, &e.E_RDA, &e.E_WRA, &e.E_ref_AB, &e.E_ref_PB, &e.E_ref_SB, &e.E_ref_2B, &e.E_ref_DB, &e.E_pre_RDA, &e.E_pre_WRA}; }
static void symr(const D& d) { for (double* p : d) *p = vp_sym_real("e"); }

static void equality() {
    SimulationStats a; a.bank.resize(2); a.rank_total.resize(2); F fa; f_sim(a, fa); sym(fa);
    SimulationStats b = a; F fb; f_sim(b, fb);
    CHECK(a == b, "a copy is equal");
    u64 i = vp_choice("field", fb.size() + 5);
    if (i < fb.size()) { *fb[i] = vp_sym_bits("other", 64); CHECK((a == b) == (*fa[i] == *fb[i]), "equal exactly when every field is equal"); CHECK((b == a) == (a == b), "equality is symmetric"); vp_log("eq", a == b); }
    else {
        i -= fb.size();
        if (i == 0) b.bank.pop_back(); else if (i == 1) b.rank_total.pop_back(); else if (i == 2) b.bank.emplace_back(); else if (i == 3) b.rank_total.emplace_back(); else b.bank.clear();
        CHECK(!(a == b) && !(b == a), "different numbers of banks or ranks are not equal");
    }
    vp_cover("equality");
}
static void addition() {
    SimulationStats a, b; a.bank.resize(vp_choice("nb", 3)); b.bank.resize(vp_choice("nb2", 3)); a.rank_total.resize(vp_choice("nr", 3)); b.rank_total.resize(vp_choice("nr2", 3));
    F fa, fb; f_sim(a, fa); f_sim(b, fb); sym(fa); sym(fb);
    SimulationStats a0 = a, b0 = b;
    SimulationStats& r = (a += b);
    CHECK(&r == &a, "returns the sum");
    size_t nb = a0.bank.size() > b0.bank.size() ? a0.bank.size() : b0.bank.size(), nr = a0.rank_total.size() > b0.rank_total.size() ? a0.rank_total.size() : b0.rank_total.size();
    CHECK(a.bank.size() == nb && a.rank_total.size() == nr, "the sum covers the banks and ranks of both");
    a0.bank.resize(nb); b0.bank.resize(nb); a0.rank_total.resize(nr); b0.rank_total.resize(nr); // absent entries count as zero
    F x, y, z; f_sim(a0, x); f_sim(b0, y); f_sim(a, z);
    for (size_t i = 0; i < z.size(); i++) CHECK(*z[i] == *x[i] + *y[i], "every field of the sum is the sum of the fields");
    F w; f_sim(b, w); F fb0; b0.bank.resize(b.bank.size()); b0.rank_total.resize(b.rank_total.size()); f_sim(b0, fb0);
    for (size_t i = 0; i < w.size(); i++) CHECK(*w[i] == *fb0[i], "the right operand is unchanged");
    vp_log("n", z.size()); if (!z.empty()) vp_log("z0", *z[0]);
    vp_cover("addition");
}
static void bus_arith() {
    util::bus_stats_t a, b; F fa, fb; f_bus(a, fa); f_bus(b, fb); sym(fa); sym(fb); u64 k = vp_sym_bits("k", 64);
    util::bus_stats_t s = a + b, m = a * k, n = k * a; F fs, fm, fn; f_bus(s, fs); f_bus(m, fm); f_bus(n, fn);
    for (int i = 0; i < 5; i++) { CHECK(*fs[i] == *fa[i] + *fb[i], "bus statistics add"); CHECK(*fm[i] == *fa[i] * k && *fn[i] == *fm[i], "bus statistics scale"); }
    vp_log("s", *fs[0]); vp_cover("bus arithmetic");
}
static void store() {
    Store st; CycleStats c, d; util::bus_stats_t b, b2; F f, g; f_cyc(c, f); f_bus(b, f); sym(f);
    c.serialize(st.out()); b.serialize(st.out());
    F pre; f_cyc(d, pre); f_bus(b2, pre); sym(pre); // whatever was there before
    d.deserialize(st.in()); b2.deserialize(st.in());
    f_cyc(d, g); f_bus(b2, g);
    for (size_t i = 0; i < f.size(); i++) CHECK(*f[i] == *g[i], "restored statistics equal the stored ones");
    CHECK(st.all_read(), "everything stored is read"); vp_log("x", *g[3]); vp_cover("store");
}
static void energy() {
    unsigned n = (unsigned)vp_choice("banks", 4); energy_t e(n);
    std::vector<energy_info_t> in; double bt = 0; std::vector<double> sum(15, 0);
    for (unsigned i = 0; i < n; i++) {
        D d = f_en(e.bank_energy[i]); symr(d); double t = 0;
        for (int k = 0; k < 13; k++) t += *d[k]; // the auto-precharge energies are part of E_pre already
        for (int k = 0; k < 15; k++) sum[k] += *d[k];
        vp_assert_req(e.bank_energy[i].total(), t, "bank total: every component once"); bt += t;
    }
    D sh = {&e.E_bg_act_shared, &e.E_PDNA, &e.E_PDNP, &e.E_sref, &e.E_dsm, &e.E_refab}; symr(sh);
    double shs = 0; for (double* p : sh) shs += *p;
    vp_assert_req(e.total(), bt + shs, "total: all banks and all shared components once");
    energy_info_t ag = e.aggregated_bank_energy(); D a = f_en(ag); sum[2] += e.E_bg_act_shared;
    for (int k = 0; k < 15; k++) vp_assert_req(*a[k], sum[k], "aggregate: componentwise sum of the banks, shared active background included");
    energy_info_t u, v; D du = f_en(u), dv = f_en(v); symr(du); symr(dv); energy_info_t w = u; energy_info_t& rw = (w += v); CHECK(&rw == &w, "returns the sum"); D dw = f_en(w);
    for (int k = 0; k < 15; k++) vp_assert_req(*dw[k], *du[k] + *dv[k], "bank energies add componentwise");
    interface_energy_info_t x, y; D dx = {&x.controller.dynamicEnergy, &x.controller.staticEnergy, &x.dram.dynamicEnergy, &x.dram.staticEnergy}, dy = {&y.controller.dynamicEnergy, &y.controller.staticEnergy, &y.dram.dynamicEnergy, &y.dram.staticEnergy};
    symr(dx); symr(dy); interface_energy_info_t z = x + y, q = x; q += y;
    D dz = {&z.controller.dynamicEnergy, &z.controller.staticEnergy, &z.dram.dynamicEnergy, &z.dram.staticEnergy}, dq = {&q.controller.dynamicEnergy, &q.controller.staticEnergy, &q.dram.dynamicEnergy, &q.dram.staticEnergy};
    double t = 0; for (int k = 0; k < 4; k++) { vp_assert_req(*dz[k], *dx[k] + *dy[k], "interface energies add"); vp_assert_req(*dq[k], *dx[k] + *dy[k], "interface energies add in place"); t += *dx[k]; }
    vp_assert_req(x.total(), t, "interface total: every component once");
    interface_energy_t r = x.controller + y.dram; vp_assert_req(r.dynamicEnergy, *dx[0] + *dy[2], "dynamic"); vp_assert_req(r.staticEnergy, *dx[1] + *dy[3], "static");
    vp_log_real("total", e.total()); vp_cover("energy");
}
int vp_main() {
    switch (vp_choice("what", 5)) { case 0: equality(); break; case 1: addition(); break; case 2: bus_arith(); break; case 3: store(); break; default: energy(); }
    return 0;
}
