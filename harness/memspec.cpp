// Memory specification: every derived parameter against the raw specification, for arbitrary timing values. -DSTD_<standard>
#include <vp.h>
#include "specs.h"
#include <optional>
#if defined(STD_DDR4)
#include <DRAMPower/memspec/MemSpecDDR4.h>
typedef DRAMPower::MemSpecDDR4 M;
#define RAW ddr4
#elif defined(STD_DDR5)
#include <DRAMPower/memspec/MemSpecDDR5.h>
typedef DRAMPower::MemSpecDDR5 M;
#define RAW ddr5
#elif defined(STD_LPDDR4)
#include <DRAMPower/memspec/MemSpecLPDDR4.h>
typedef DRAMPower::MemSpecLPDDR4 M;
#define RAW lpddr4
#elif defined(STD_LPDDR5)
#include <DRAMPower/memspec/MemSpecLPDDR5.h>
typedef DRAMPower::MemSpecLPDDR5 M;
#define RAW lpddr5
#else
#include <DRAMPower/memspec/MemSpecLPDDR6.h>
typedef DRAMPower::MemSpecLPDDR6 M;
#define RAW lpddr6
#endif
using namespace DRAMPower;
namespace MS = DRAMUtils::MemSpec;
typedef uint64_t u64;
static u64 I(const char* n) { return vp_sym_bits(n, 32); }
static double R(const char* n) { return vp_sym_real(n); }
#define SAME(x, y) CHECK((u64)(x) == (u64)(y), #x " == " #y)
#define SAMER(x, y) vp_assert_req(x, y, #x " == " #y)
int vp_main() {
    static const u64 bls[] = {4, 8, 16, 24, 32, 48}, drs[] = {1, 2, 4, 8};
    u64 bl = bls[vp_choice("bl", 6)], dr = drs[vp_choice("dr", 4)];
#if defined(STD_LPDDR5)
    static const u64 orgs[][2] = {{16, 0}, {16, 1}, {16, 4}, {8, 0}, {8, 1}, {16, 2}, {8, 4}, {32, 8}, {4, 1}}; auto& o = orgs[vp_choice("org", 9)];
#elif defined(STD_LPDDR4)
    static const u64 orgs[][2] = {{8, 1}}; auto& o = orgs[0];
#else
    static const u64 orgs[][2] = {{16, 4}, {8, 2}, {32, 8}, {4, 1}, {6, 3}}; auto& o = orgs[vp_choice("org", 5)];
#endif
    Arch a{o[0], o[1], I("ranks"), I("devices"), I("width"), bl, dr};
    auto s = raw::RAW(a); auto& m = s.memarchitecturespec; auto& t = s.memtimingspec; auto& p = s.mempowerspec;
    m.nbrOfRows = I("rows"); m.nbrOfColumns = I("cols"); s.memoryId = "id0";
    t.tCK = R("tCK"); p.vddq = R("vddq");
    u64 ras = t.RAS = I("RAS"), wl = t.WL = I("WL"), wr = t.WR = I("WR");
#if defined(STD_DDR4)
    static const int modes[] = {1, 2, 4, -1}; int mode = modes[vp_choice("mode", 4)]; m.RefMode = (MS::RefModeTypeDDR4)mode;
    t.RCD = I("RCD"); t.RTP = I("RTP"); t.RP = I("RP"); t.AL = I("AL"); t.RFC1 = I("RFC1"); t.RFC2 = I("RFC2"); t.RFC4 = I("RFC4"); p.idd0 = R("idd0"); p.ipp0 = R("ipp0");
    u64 cmd = vp_choice("beta", 2); if (cmd) { p.iBeta_vdd = R("beta"); p.iBeta_vpp = R("beta"); }
    auto& q = s.prepostamble; q.read_zeroes = R("p"); q.write_zeroes = R("p"); q.read_ones = R("p"); q.write_ones = R("p");
    q.read_zeroes_to_ones = I("q"); q.write_zeroes_to_ones = I("q"); q.write_ones_to_zeroes = I("q"); q.read_ones_to_zeroes = I("q"); q.readMinTccd = I("q"); q.writeMinTccd = I("q");
    MS::BankWiseSpecTypeDDR4 bw;
#elif defined(STD_DDR5)
    static const int modes[] = {1, 2, -1}; int mode = modes[vp_choice("mode", 3)]; m.RefMode = (MS::RefModeTypeDDR5)mode;
    t.RCD = I("RCD"); t.RTP = I("RTP"); t.RP = I("RP"); t.RFC1_slr = I("RFC1"); t.RFC2_slr = I("RFC2"); t.RFCsb_slr = I("RFCsb"); t.RFC1 = I("x"); t.RFC2 = I("x"); t.RFCsb = I("x"); p.idd0 = R("idd0"); p.ipp0 = R("ipp0");
    u64 cmd = vp_choice("beta", 2); if (cmd) { p.iBeta_vdd = R("beta"); p.iBeta_vpp = R("beta"); }
    u64 drs3 = vp_choice("drspec", 2); u64 ca = I("ca"), dq = I("dq"), dqs = I("dqs"); if (drs3) s.dataratespec = MS::DataRateSpecTypeDDR5{ca, dq, dqs};
    MS::BankWiseSpecTypeDDR5 bw;
#elif defined(STD_LPDDR4)
    t.RCD = I("RCD"); t.RL = I("RL"); t.RTP = I("RTP"); t.RPpb = I("RPpb"); t.RPab = I("RPab"); t.RFCpb = I("RFCpb"); t.RFCab = I("RFCab"); t.REFI = I("REFI");
    MS::BankWiseSpecTypeLPDDR4 bw;
#else
    static const u64 w2c[] = {1, 2, 4}; u64 w = w2c[vp_choice("wck", 3)]; t.WCK2CK = w; m.WCKalwaysOn = vp_choice("always", 2);
    t.RBTP = I("RBTP"); t.RPpb = I("RPpb"); t.RPab = I("RPab"); t.RFCab = I("RFCab"); t.REFI = I("REFI");
#if defined(STD_LPDDR5)
    t.RCD_S = I("RCD_S"); t.RCD_L = I("RCD_L"); t.RCD = I("RCD"); t.RFCpb = I("RFCpb");
    MS::BankWiseSpecTypeLPDDR5 bw;
#else
    t.RCD_r = I("RCD_r"); t.RCD_w = I("RCD_w"); t.RFCdb = I("RFCdb");
    MS::BankWiseSpecTypeLPDDR6 bw;
#endif
#endif
    unsigned bws = vp_choice("bankwise", 3); double rho = 1;
    if (bws == 2) { rho = R("rho"); bw.factRho = rho; }
#if defined(STD_LPDDR4)
    double sigma = 1; bool pasr = false; int pm = -2;
    if (bws) {
        if (vp_choice("sigma", 2)) { sigma = R("sigma"); bw.factSigma = sigma; }
        unsigned h = vp_choice("hasPASR", 3); if (h) { pasr = h == 2; bw.hasPASR = pasr; }
        pm = (int)vp_choice("pasrMode", 10) - 2; if (pm >= -1) bw.pasrMode = (MS::pasrModesType)pm;
    }
#endif
    if (bws) s.bankwisespec = bw;
    const MS::MemSpecVariant var{s};
    M ms = M::from_memspec(var);

    SAME(ms.numberOfDevices, vp_fork(m.nbrOfDevices == 0) ? 1 : m.nbrOfDevices); SAME(ms.numberOfRanks, m.nbrOfRanks); SAME(ms.numberOfRows, m.nbrOfRows); SAME(ms.numberOfColumns, m.nbrOfColumns);
    SAME(ms.burstLength, bl); SAME(ms.dataRate, dr); SAME(ms.bitWidth, m.width); SAMER(ms.vddq, p.vddq); CHECK(ms.memoryId == "id0" && ms.memoryType == s.id, "identification");
    auto& T = ms.memTimingSpec; SAMER(T.tCK, t.tCK); SAME(T.tRAS, ras); SAME(T.tWL, wl); SAME(T.tWR, wr); SAMER(ms.bwParams.bwPowerFactRho, rho);
#if defined(STD_DDR4) || defined(STD_DDR5)
    SAME(ms.numberOfBanks, o[0]); SAME(ms.numberOfBankGroups, o[1]);
    SAME(T.tRCD, t.RCD); SAME(T.tRTP, t.RTP); SAME(T.tRP, t.RP); SAME(T.tBurst, bl / dr); SAME(ms.prechargeOffsetWR, bl / dr + wl + wr);
    CHECK(ms.memPowerSpec.size() == 2, "two voltage domains"); SAMER(ms.memPowerSpec[0].iBeta, cmd ? *p.iBeta_vdd : p.idd0); SAMER(ms.memPowerSpec[1].iBeta, cmd ? *p.iBeta_vpp : p.ipp0);
#if defined(STD_DDR4)
    SAME(ms.prechargeOffsetRD, t.AL + t.RTP); SAME(T.tAL, t.AL); SAME(T.tRFC, mode == 2 ? t.RFC2 : mode == 4 ? t.RFC4 : t.RFC1);
    auto& Q = ms.prePostamble; SAMER(Q.read_zeroes, q.read_zeroes); SAMER(Q.write_zeroes, q.write_zeroes); SAMER(Q.read_ones, q.read_ones); SAMER(Q.write_ones, q.write_ones);
    SAME(Q.read_zeroes_to_ones, q.read_zeroes_to_ones); SAME(Q.write_zeroes_to_ones, q.write_zeroes_to_ones); SAME(Q.write_ones_to_zeroes, q.write_ones_to_zeroes); SAME(Q.read_ones_to_zeroes, q.read_ones_to_zeroes);
    SAME(Q.readMinTccd, q.readMinTccd); SAME(Q.writeMinTccd, q.writeMinTccd);
#else
    SAME(ms.prechargeOffsetRD, t.RTP); SAME(T.tRFC, mode == 2 ? t.RFC2_slr : t.RFC1_slr); SAME(T.tRFCsb, t.RFCsb_slr); SAME(ms.banksPerGroup, o[0] / o[1]);
    SAME(ms.dataRateSpec.commandBusRate, drs3 ? ca : 2); SAME(ms.dataRateSpec.dataBusRate, drs3 ? dq : 2); SAME(ms.dataRateSpec.dqsBusRate, drs3 ? dqs : 2);
#endif
#else
    SAME(T.tRP, t.RPpb); SAME(T.tREFI, t.REFI);
#if defined(STD_LPDDR4)
    SAME(ms.numberOfBanks, o[0]); SAME(ms.numberOfBankGroups, o[1]); SAME(ms.banksPerGroup, o[0] / o[1]);
    SAME(T.tRCD, t.RCD); SAME(T.tRL, t.RL); SAME(T.tRTP, t.RTP); SAME(T.tRFC, t.RFCab); SAME(T.tRFCPB, t.RFCpb);
    SAME(ms.prechargeOffsetRD, (bl == 16 ? 0 : 8) + t.RTP); SAME(ms.prechargeOffsetWR, wl + bl / 2 + 1 + wr);
    SAMER(ms.bwParams.bwPowerFactSigma, sigma); SAME(ms.bwParams.flgPASR, pasr); SAME(ms.bwParams.pasrMode, pm < 0 ? 0 : pm);
    // banks kept alive in self-refresh: 8 banks, shown as one character each
    static const char* keep[] = {"XXXXXXXX", "XXXX0000", "XX000000", "X0000000", "00XXXXXX", "0000XXXX", "000000XX", "0000000X"};
    if (pasr) for (unsigned b = 0; b < 10; b++) CHECK(ms.bwParams.isBankActiveInPasr(b) == (b < 8 && keep[pm < 0 ? 0 : pm][b] == 'X'), "banks refreshed in partial array self-refresh");
#else
    SAME(T.WCKtoCK, w); SAMER(T.tWCK * (double)w, t.tCK); SAME(T.tRBTP, t.RBTP); SAME(T.tBurst, bl / (dr * w)); SAME(ms.prechargeOffsetRD, bl / (dr * w) + t.RBTP); SAME(ms.prechargeOffsetWR, wl + bl / (dr * w) + 1 + wr);
    SAME(ms.wckAlwaysOnMode, m.WCKalwaysOn);
#if defined(STD_LPDDR5)
    SAME(T.tRCD, t.RCD_S); SAME(T.tRFC, t.RFCab); SAME(T.tRFCPB, t.RFCpb);
    bool bg = o[0] == 16 && o[1] == 4, b8 = o[0] == 8 && o[1] <= 1, b16 = o[0] == 16 && o[1] <= 1, valid = bg || b8 || b16; // anything else is taken as 16 banks
    CHECK(ms.bank_arch == (bg ? M::MBG : b8 ? M::M8B : M::M16B), "bank architecture"); SAME(ms.numberOfBanks, valid ? o[0] : 16); SAME(ms.numberOfBankGroups, valid ? o[1] : 1); SAME(ms.banksPerGroup, bg ? 4 : b8 ? 8 : 16);
#else
    SAME(ms.numberOfBanks, o[0]); SAME(ms.numberOfBankGroups, o[1]); SAME(ms.banksPerGroup, o[0] / o[1]);
    SAME(T.tRCDR, t.RCD_r); SAME(T.tRCDW, t.RCD_w); SAME(T.tRFCDB, t.RFCdb); SAME(T.tRFCAB, t.RFCab);
#endif
#endif
#endif
    vp_log("offRD", ms.prechargeOffsetRD); vp_log("offWR", ms.prechargeOffsetWR); vp_cover("end");
    return 0;
}
