// Core energy: for arbitrary statistics and arbitrary electrical and timing parameters, every energy component the
// calculation class reports equals the bank-wise current model, evaluated here directly from the raw specification.
// Built once per standard with -DSTD_<standard>; CFG selects the organisations explored.
#include <vp.h>
#include "specs.h"
#include <vector>
#include <optional>
#if defined(STD_DDR4)
#include <DRAMPower/memspec/MemSpecDDR4.h>
#include <DRAMPower/standards/ddr4/core_calculation_DDR4.h>
#define DDR 1
#define NDOM 2
#elif defined(STD_DDR5)
#include <DRAMPower/memspec/MemSpecDDR5.h>
#include <DRAMPower/standards/ddr5/core_calculation_DDR5.h>
#define DDR 1
#define NDOM 2
#elif defined(STD_LPDDR4)
#include <DRAMPower/memspec/MemSpecLPDDR4.h>
#include <DRAMPower/standards/lpddr4/core_calculation_LPDDR4.h>
#define NDOM 2
#elif defined(STD_LPDDR5)
#include <DRAMPower/memspec/MemSpecLPDDR5.h>
#include <DRAMPower/standards/lpddr5/core_calculation_LPDDR5.h>
#define NDOM 3
#elif defined(STD_LPDDR6)
#include <DRAMPower/memspec/MemSpecLPDDR6.h>
#include <DRAMPower/standards/lpddr6/core_calculation_LPDDR6.h>
#define NDOM 3
#endif
using namespace DRAMPower;
namespace MS = DRAMUtils::MemSpec;
typedef uint64_t u64;

static double R(const char* n) { return vp_sym_real(n); }
static u64 I(const char* n, unsigned bits = 16) { return vp_sym_bits(n, bits); }
static u64 P(const char* n, unsigned bits = 12) { return 1 + vp_sym_bits(n, bits); }

// currents of one voltage domain
struct Dom { double V, i0, i2n, i3n, i2p, i3p, i4r, i4w, i5, i5c = 0, i5pb = 0, i6, i6ds = 0, ibeta; bool beta; };
static Dom d[NDOM];
static const unsigned mode = 0;

int vp_main() {
    struct Cfg { u64 banks, groups, ranks, devices, bl, dr; bool beta; int rho; int ref; };
#if defined(STD_DDR4)
    static const Cfg cfgs[] = {{2, 1, 1, 1, 8, 2, true, 2, 1}, {2, 2, 2, 2, 4, 2, false, 1, 2}, {3, 1, 1, 2, 8, 1, true, 0, 4}, {1, 1, 2, 0, 1, 2, false, 2, -1}, {16, 4, 2, 2, 8, 2, true, 2, 4}};
#elif defined(STD_DDR5)
    static const Cfg cfgs[] = {{4, 2, 1, 1, 16, 2, true, 2, 1}, {2, 1, 2, 2, 8, 2, false, 1, 2}, {2, 2, 1, 2, 32, 1, true, 0, -1}, {2, 1, 2, 0, 1, 2, false, 2, 1}, {16, 4, 2, 2, 16, 2, true, 2, 2}};
#elif defined(STD_LPDDR4)
    static const Cfg cfgs[] = {{2, 1, 1, 1, 16, 2, true, 2, 1}, {2, 1, 2, 2, 32, 2, false, 1, 1}, {3, 1, 1, 2, 16, 1, true, 0, 1}, {1, 1, 2, 0, 1, 2, false, 2, 1}, {8, 1, 2, 2, 16, 2, true, 2, 1}};
#elif defined(STD_LPDDR5)
    static const Cfg cfgs[] = {{8, 1, 1, 1, 16, 2, true, 2, 1}, {16, 4, 1, 1, 32, 2, false, 2, 1}, {8, 1, 2, 2, 16, 2, false, 1, 1}, {16, 1, 1, 0, 1, 2, true, 0, 1}, {16, 4, 2, 2, 16, 2, true, 2, 1}};
#else
    static const Cfg cfgs[] = {{4, 2, 1, 1, 24, 2, true, 2, 1}, {2, 1, 2, 2, 48, 2, false, 1, 1}, {3, 1, 1, 2, 24, 1, true, 0, 1}, {1, 1, 2, 0, 1, 2, false, 2, 1}, {16, 4, 2, 2, 24, 2, true, 2, 1}};
#endif
    const Cfg c = cfgs[vp_choice("cfg", sizeof(cfgs) / sizeof(cfgs[0]))];
    Arch a{c.banks, c.groups, c.ranks, c.devices, 8, c.bl, c.dr};
    u64 ND = c.devices ? c.devices : 1;

    // ---- the raw specification, all parameters free
    double tCK = R("tCK"); vp_assume(tCK > 0);
    for (auto& x : d) {
        x.V = R("V"); x.i0 = R("i0"); x.i2n = R("i2n"); x.i3n = R("i3n"); x.i2p = R("i2p"); x.i3p = R("i3p"); x.i4r = R("i4r"); x.i4w = R("i4w"); x.i5 = R("i5"); x.i6 = R("i6");
        x.i5c = R("i5c"); x.i5pb = R("i5pb"); x.i6ds = R("i6ds");
        x.ibeta = c.beta ? R("ibeta") : x.i0;
    }
    std::optional<double> rhoO; double rho = 1;
    if (c.rho == 2) { rho = R("rho"); vp_assume(rho >= 0); vp_assume(rho <= 1); rhoO = rho; }
    u64 ras = P("tRAS"), rp = P("tRP"), rfc = P("tRFC"), rfcb = P("tRFCb"), refi = P("tREFI", 16);
    double w2c = 1;
    std::optional<double> b0, b1, b2; if (c.beta) { b0 = d[0].ibeta; b1 = d[1].ibeta; if (NDOM > 2) b2 = d[NDOM - 1].ibeta; }
    (void)b2; (void)rfcb; (void)refi;
#if defined(STD_DDR4)
    auto s = raw::ddr4(a); auto& p = s.mempowerspec; auto& t = s.memtimingspec; MS::BankWiseSpecTypeDDR4 bw;
    s.memarchitecturespec.RefMode = (MS::RefModeTypeDDR4)c.ref;
    p.vdd = d[0].V; p.idd0 = d[0].i0; p.idd2n = d[0].i2n; p.idd3n = d[0].i3n; p.idd4r = d[0].i4r; p.idd4w = d[0].i4w; p.idd6n = d[0].i6; p.idd2p = d[0].i2p; p.idd3p = d[0].i3p;
    p.vpp = d[1].V; p.ipp0 = d[1].i0; p.ipp2n = d[1].i2n; p.ipp3n = d[1].i3n; p.ipp4r = d[1].i4r; p.ipp4w = d[1].i4w; p.ipp6n = d[1].i6; p.ipp2p = d[1].i2p; p.ipp3p = d[1].i3p;
    p.idd5B = R("x1"); p.idd5F2 = R("x2"); p.idd5F4 = R("x4"); p.ipp5B = R("y1"); p.ipp5F2 = R("y2"); p.ipp5F4 = R("y4"); p.vddq = R("vddq");
    (c.ref == 2 ? p.idd5F2 : c.ref == 4 ? p.idd5F4 : p.idd5B) = d[0].i5; (c.ref == 2 ? p.ipp5F2 : c.ref == 4 ? p.ipp5F4 : p.ipp5B) = d[1].i5;
    t.RFC1 = I("rfc1"); t.RFC2 = I("rfc2"); t.RFC4 = I("rfc4"); (c.ref == 2 ? t.RFC2 : c.ref == 4 ? t.RFC4 : t.RFC1) = rfc;
    t.RAS = ras; t.RP = rp; p.iBeta_vdd = b0; p.iBeta_vpp = b1;
#elif defined(STD_DDR5)
    auto s = raw::ddr5(a); auto& p = s.mempowerspec; auto& t = s.memtimingspec; MS::BankWiseSpecTypeDDR5 bw;
    s.memarchitecturespec.RefMode = (MS::RefModeTypeDDR5)c.ref;
    p.vdd = d[0].V; p.idd0 = d[0].i0; p.idd2n = d[0].i2n; p.idd3n = d[0].i3n; p.idd4r = d[0].i4r; p.idd4w = d[0].i4w; p.idd6n = d[0].i6; p.idd2p = d[0].i2p; p.idd3p = d[0].i3p; p.idd5c = d[0].i5c;
    p.vpp = d[1].V; p.ipp0 = d[1].i0; p.ipp2n = d[1].i2n; p.ipp3n = d[1].i3n; p.ipp4r = d[1].i4r; p.ipp4w = d[1].i4w; p.ipp6n = d[1].i6; p.ipp2p = d[1].i2p; p.ipp3p = d[1].i3p; p.ipp5c = d[1].i5c;
    p.idd5b = R("x1"); p.idd5f = R("x2"); p.ipp5b = R("y1"); p.ipp5f = R("y2"); p.vddq = R("vddq");
    (c.ref == 2 ? p.idd5f : p.idd5b) = d[0].i5; (c.ref == 2 ? p.ipp5f : p.ipp5b) = d[1].i5;
    t.RFC1_slr = I("rfc1"); t.RFC2_slr = I("rfc2"); (c.ref == 2 ? t.RFC2_slr : t.RFC1_slr) = rfc; t.RFCsb_slr = rfcb;
    t.RAS = ras; t.RP = rp; p.iBeta_vdd = b0; p.iBeta_vpp = b1;
#elif defined(STD_LPDDR4)
    auto s = raw::lpddr4(a); auto& p = s.mempowerspec; auto& t = s.memtimingspec; MS::BankWiseSpecTypeLPDDR4 bw;
#define DOMLP(x, S) p.vdd##S = x.V; p.idd0##S = x.i0; p.idd2n##S = x.i2n; p.idd3n##S = x.i3n; p.idd4r##S = x.i4r; p.idd4w##S = x.i4w; p.idd5##S = x.i5; p.idd5pb##S = x.i5pb; p.idd6##S = x.i6; p.idd2p##S = x.i2p; p.idd3p##S = x.i3p;
    DOMLP(d[0], 1) DOMLP(d[1], 2)
    t.RFCab = rfc; t.RFCpb = rfcb; t.REFI = refi; t.RAS = ras; t.RPpb = rp; t.RPab = I("rpab"); p.iBeta_vdd1 = b0; p.iBeta_vdd2 = b1;
#elif defined(STD_LPDDR5)
    auto s = raw::lpddr5(a); auto& p = s.mempowerspec; auto& t = s.memtimingspec; MS::BankWiseSpecTypeLPDDR5 bw;
#define DOMLP(x, S) p.vdd##S = x.V; p.idd0##S = x.i0; p.idd2n##S = x.i2n; p.idd3n##S = x.i3n; p.idd4r##S = x.i4r; p.idd4w##S = x.i4w; p.idd5##S = x.i5; p.idd5pb##S = x.i5pb; p.idd6##S = x.i6; p.idd6ds##S = x.i6ds; p.idd2p##S = x.i2p; p.idd3p##S = x.i3p;
    DOMLP(d[0], 1) DOMLP(d[1], 2h) DOMLP(d[2], 2l)
    t.RFCab = rfc; t.RFCpb = rfcb; t.REFI = refi; t.RAS = ras; t.RPpb = rp; t.RPab = I("rpab"); p.iBeta_vdd1 = b0; p.iBeta_vdd2h = b1; p.iBeta_vdd2l = b2;
    t.WCK2CK = c.beta ? 4 : 2; w2c = (double)t.WCK2CK;
#else
    auto s = raw::lpddr6(a); auto& p = s.mempowerspec; auto& t = s.memtimingspec; MS::BankWiseSpecTypeLPDDR6 bw;
#define DOMLP(x, S) p.vdd##S = x.V; p.idd0##S = x.i0; p.idd2n##S = x.i2n; p.idd3n##S = x.i3n; p.idd4r##S = x.i4r; p.idd4w##S = x.i4w; p.idd5##S = x.i5; p.idd5pdb##S = x.i5pb; p.idd6##S = x.i6; p.idd6ds##S = x.i6ds; p.idd2p##S = x.i2p; p.idd3p##S = x.i3p;
    DOMLP(d[0], 1) DOMLP(d[1], 2c) DOMLP(d[2], 2d)
    t.RFCab = rfc; t.RFCdb = rfcb; t.RFCpb = I("rfcpb"); t.REFI = refi; t.RAS = ras; t.RPpb = rp; t.RPab = I("rpab"); p.iBeta_vdd1 = b0; p.iBeta_vdd2c = b1; p.iBeta_vdd2d = b2;
    t.WCK2CK = c.beta ? 4 : 2; w2c = (double)t.WCK2CK;
#endif
    t.tCK = tCK;
    if (c.rho >= 1) { bw.factRho = rhoO; s.bankwisespec = bw; }

    // ---- arbitrary statistics
    SimulationStats st;
    st.bank.resize(c.banks * c.ranks); st.rank_total.resize(c.ranks);
    for (auto& b : st.bank) {
        auto& k = b.counter; k.act = I("act", 32); k.pre = I("pre", 32); k.reads = I("rd", 32); k.writes = I("wr", 32); k.readAuto = I("rda", 32); k.writeAuto = I("wra", 32); k.refAllBank = I("refab", 32);
        k.refPerBank = I("refpb", 32); k.refPerTwoBanks = I("ref2b", 32); k.refDualBanks = I("refdb", 32); k.refSameBank = I("refsb", 32);
        b.cycles.act = I("cact", 32); b.cycles.pre = I("cpre", 32); b.cycles.powerDownAct = I("cpda", 32); b.cycles.powerDownPre = I("cpdp", 32); b.cycles.selfRefresh = I("csr", 32);
    }
    for (auto& r : st.rank_total) { auto& y = r.cycles; y.act = I("ract", 32); y.pre = I("rpre", 32); y.powerDownAct = I("rpda", 32); y.powerDownPre = I("rpdp", 32); y.selfRefresh = I("rsr", 32); y.deepSleepMode = I("rds", 32); }

    // ---- the code
#if defined(STD_DDR4)
    MemSpecDDR4 ms(s); Calculation_DDR4 calc(ms);
#elif defined(STD_DDR5)
    MemSpecDDR5 ms(s); Calculation_DDR5 calc(ms);
#elif defined(STD_LPDDR4)
    MemSpecLPDDR4 ms(s); Calculation_LPDDR4 calc(ms);
#elif defined(STD_LPDDR5)
    MemSpecLPDDR5 ms(s); Calculation_LPDDR5 calc(ms);
#else
    MemSpecLPDDR6 ms(s); Calculation_LPDDR6 calc(ms);
#endif
    energy_t e = calc.calcEnergy(st);
    CHECK(e.bank_energy.size() == c.banks * c.ranks * ND, "one energy entry per bank, rank and device");

    // ---- the model
    const double B = (double)c.banks, tRAS = (double)ras * tCK, tRP = (double)rp * tCK, tRFC = (double)rfc * tCK, tRFCb = (double)rfcb * tCK, tREFIpb = (double)refi * tCK / 8;
    const double tBurst = (double)c.bl / (double)c.dr * (tCK / w2c);
    double irho[NDOM], i1[NDOM], iall[NDOM], ipb[NDOM], irw[NDOM], ith[NDOM], i2[NDOM];
    for (unsigned k = 0; k < NDOM; k++) {
        const Dom& x = d[k];
#ifdef DDR
        irho[k] = x.i2n + rho * (x.i3n - x.i2n); i1[k] = (x.i3n + (B - 1) * irho[k]) / B; iall[k] = x.i3n; irw[k] = x.i3n;
        i2[k] = 0; ipb[k] = 0;
#else
        i1[k] = x.i3n; irho[k] = (B * rho * x.i3n + (1 - rho) * x.i2n) / (B * rho + 1 - rho); iall[k] = irho[k] + B * (i1[k] - irho[k]);
        i2[k] = 2 * i1[k] - irho[k];
        ipb[k] = (x.i5pb * tREFIpb - x.i2n * (tREFIpb - tRFCb)) / tRFCb;
        irw[k] = i1[k];
#if defined(STD_LPDDR6)
        irw[k] = i2[k];
#elif defined(STD_LPDDR5)
        if (c.groups == 4) irw[k] = i2[k];
#endif
#endif
        ith[k] = (x.i0 * (tRP + tRAS) - x.ibeta * tRP) / tRAS;
    }
    auto sum = [&](auto f) { double r = 0; for (unsigned k = 0; k < NDOM; k++) r += f(k); return r; };
    double shAct = 0, shPdA = 0, shPdP = 0, shSr = 0, shDs = 0;
    for (u64 r = 0; r < c.ranks; r++) {
        auto& ry = st.rank_total[r].cycles;
        for (u64 dv = 0; dv < ND; dv++) for (u64 b = 0; b < c.banks; b++) {
            const energy_info_t& g = e.bank_energy[(r * ND + dv) * c.banks + b];
            auto& k = st.bank[r * c.banks + b].counter; auto& y = st.bank[r * c.banks + b].cycles;
            double N;
            N = (double)k.act; vp_assert_req(g.E_act, sum([&](unsigned q) { return d[q].V * (ith[q] - i1[q]) * tRAS * N; }), "E_act");
            auto pre = [&](unsigned q) { return d[q].V * (d[q].ibeta - d[q].i2n) * tRP * N; };
            N = (double)k.pre; vp_assert_req(g.E_pre, sum(pre), "E_pre");
            N = (double)k.readAuto; vp_assert_req(g.E_pre_RDA, sum(pre), "E_pre_RDA");
            N = (double)k.writeAuto; vp_assert_req(g.E_pre_WRA, sum(pre), "E_pre_WRA");
            N = (double)y.act; vp_assert_req(g.E_bg_act, sum([&](unsigned q) { return d[q].V * (i1[q] - irho[q]) * N * tCK; }), "E_bg_act");
            N = (double)ry.pre; vp_assert_req(g.E_bg_pre, sum([&](unsigned q) { return d[q].V * d[q].i2n * N * tCK / B; }), "E_bg_pre");
            auto rd = [&](unsigned q) { return d[q].V * (d[q].i4r - irw[q]) * tBurst * N; };
            auto wr = [&](unsigned q) { return d[q].V * (d[q].i4w - irw[q]) * tBurst * N; };
            N = (double)k.reads; vp_assert_req(g.E_RD, sum(rd), "E_RD");
            N = (double)k.readAuto; vp_assert_req(g.E_RDA, sum(rd), "E_RDA");
            N = (double)k.writes; vp_assert_req(g.E_WR, sum(wr), "E_WR");
            N = (double)k.writeAuto; vp_assert_req(g.E_WRA, sum(wr), "E_WRA");
            N = (double)k.refAllBank; vp_assert_req(g.E_ref_AB, sum([&](unsigned q) { return d[q].V * (d[q].i5 - iall[q]) * tRFC * N / B; }), "E_ref_AB");
            double pb = 0, p2 = 0, db = 0, sb = 0;
#if defined(STD_DDR5)
            double BG = (double)c.groups; N = (double)k.refSameBank; sb = sum([&](unsigned q) { return d[q].V * (d[q].i5c - (irho[q] + BG * (i1[q] - irho[q]))) * tRFCb * N / BG; });
#endif
#if defined(STD_LPDDR4) || defined(STD_LPDDR5)
            N = (double)k.refPerBank; pb = sum([&](unsigned q) { return d[q].V * (ipb[q] - i1[q]) * tRFCb * N; });
#endif
#if defined(STD_LPDDR5)
            N = (double)k.refPerTwoBanks; p2 = sum([&](unsigned q) { return d[q].V * (ipb[q] - i2[q]) * tRFCb * N / 2; });
#elif defined(STD_LPDDR6)
            N = (double)k.refDualBanks; db = sum([&](unsigned q) { return d[q].V * (ipb[q] - i2[q]) * tRFCb * N / 2; });
#endif
            vp_assert_req(g.E_ref_PB, pb, "E_ref_PB"); vp_assert_req(g.E_ref_2B, p2, "E_ref_2B"); vp_assert_req(g.E_ref_DB, db, "E_ref_DB"); vp_assert_req(g.E_ref_SB, sb, "E_ref_SB");
        }
        double D = (double)ND, n;
        n = (double)ry.act; shAct += sum([&](unsigned q) { return d[q].V * irho[q] * n * tCK * D; });
        n = (double)ry.powerDownAct; shPdA += sum([&](unsigned q) { return d[q].V * d[q].i3p * n * tCK * D; });
        n = (double)ry.powerDownPre; shPdP += sum([&](unsigned q) { return d[q].V * d[q].i2p * n * tCK * D; });
        n = (double)ry.selfRefresh; shSr += sum([&](unsigned q) { return d[q].V * d[q].i6 * n * tCK * D; });
#if defined(STD_LPDDR5) || defined(STD_LPDDR6)
        n = (double)ry.deepSleepMode; shDs += sum([&](unsigned q) { return d[q].V * d[q].i6ds * n * tCK * D; });
#endif
    }
    vp_assert_req(e.E_bg_act_shared, shAct, "E_bg_act_shared"); vp_assert_req(e.E_PDNA, shPdA, "E_PDNA"); vp_assert_req(e.E_PDNP, shPdP, "E_PDNP");
    vp_assert_req(e.E_sref, shSr, "E_sref"); vp_assert_req(e.E_dsm, shDs, "E_dsm"); vp_assert_req(e.E_refab, 0, "E_refab");
    vp_log_real("sref", e.E_sref); vp_log_real("act", e.bank_energy[0].E_act); vp_log_real("shared", e.E_bg_act_shared); vp_log_real("rd", e.bank_energy[0].E_RD);
    vp_cover("end");
    return 0;
}
