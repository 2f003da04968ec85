// Core accounting: for every legal sequence of at most K commands with arbitrary timestamps and timing
// parameters, the per-bank and per-rank residency and the command counters reported by the real core equal
// those of an independent interval model. Built once per standard: -DSTD_DDR4 | -DSTD_DDR5 | -DSTD_LPDDR4 | -DSTD_LPDDR5 | -DSTD_LPDDR6,
// with -DNCMD=<commands> -DRANKS=<ranks>.
#include <vp.h>
#include "specs.h"
#include "store.h"
#include <vector>
#ifndef NCMD
#define NCMD 3
#endif
#ifndef RANKS
#define RANKS 1
#endif
#ifndef TB
#define TB 10 // bits of each inter-command distance
#endif
#if defined(STD_DDR4)
#include <DRAMPower/standards/ddr4/DDR4Core.h>
#define NB 2
static const unsigned TARGETS[] = {0, 1};
#elif defined(STD_DDR5)
#include <DRAMPower/standards/ddr5/DDR5Core.h>
#define NB 4
static const unsigned TARGETS[] = {0, 3};
#elif defined(STD_LPDDR4)
#include <DRAMPower/standards/lpddr4/LPDDR4Core.h>
#define NB 2
static const unsigned TARGETS[] = {0, 1};
#elif defined(STD_LPDDR5)
#include <DRAMPower/standards/lpddr5/LPDDR5Core.h>
#define NB 16
static const unsigned TARGETS[] = {1, 9};
#elif defined(STD_LPDDR6)
#include <DRAMPower/standards/lpddr6/LPDDR6Core.h>
#include <DRAMPower/standards/lpddr6/LPDDR6Command.h>
#define NB 3
static const unsigned TARGETS[] = {0, 2};
#endif
using namespace DRAMPower;
typedef uint64_t u64;
static inline u64 mx(u64 a, u64 b) { return a > b ? a : b; }
static inline u64 mn(u64 a, u64 b) { return a < b ? a : b; }
static const u64 INF = 1ull << 40;
static const unsigned NT = sizeof(TARGETS) / sizeof(TARGETS[0]);

static u64 timing(const char* n) { return vp_sym_bits(n, 8); }
struct Timings { u64 tRAS, tRCD, tRP, tRFC, tRFCb, oRD, oWR; };

// ---- reference model -------------------------------------------------------------------------------------------
struct Interval { u64 s, e; };
struct BankM {
    bool open = false;
    bool ap = false;              // an auto-precharge was requested and takes effect at freeAt
    u64 freeAt = 0;               // closed bank: earliest next command (auto-precharge / refresh end)
    u64 lastAct = 0; bool acted = false;
    u64 lastPre = 0; bool preed = false;
    u64 refEnd = 0;
    std::vector<Interval> iv;     // times the array is open (activated or refreshing)
    std::vector<u64> autoPre;     // times of auto-precharges
    u64 act = 0, pre = 0, rd = 0, wr = 0, rda = 0, wra = 0, refA = 0, refB = 0;
    std::vector<Interval> pdWhileOpen;
};
enum RS { RUN, PDA, PDP, SREF, DSM };
struct RankM {
    RS st = RUN;
    BankM b[NB];
    std::vector<Interval> all;    // union of the bank intervals, in order of start
    std::vector<int> allBank; std::vector<int> allIdx;
    std::vector<Interval> pda, pdp, sref, dsm;
    u64 pdExit = 0; bool pdExited = false;
    u64 pdEntry = 0;
};
static Timings tm;
static RankM rk[RANKS];

enum OP { ACT_, PRE_, PREA_, RD_, RDA_, WR_, WRA_, REFA_, REFB_, REF2_, REFSB_, PRESB_, SREN_, SREX_, PDEA_, PDEP_, PDXA_, PDXP_, DSEN_, DSEX_ };
struct Op { OP o; unsigned r, b; };

#ifdef SKEL // a command skeleton: the operations allowed at each position (banks, ranks, times stay free)
static const std::vector<std::vector<OP>> skel{SKEL};
#undef NCMD
#define NCMD skel.size()
#endif

static void addIv(RankM& R, unsigned b, u64 s, u64 e) {
    R.b[b].iv.push_back({s, e});
    R.allBank.push_back((int)b); R.allIdx.push_back((int)R.b[b].iv.size() - 1);
}
static void refreshBank(RankM& R, unsigned b, u64 t, u64 len) {
    addIv(R, b, t, t + len);
    R.b[b].freeAt = t + len; R.b[b].refEnd = t + len; R.b[b].ap = false;
}
static void prechargeBank(RankM& R, unsigned b, u64 t) {
    BankM& B = R.b[b];
    if (!B.open) { vp_assume(t >= B.freeAt); return; }
    B.open = false; B.pre++; B.iv.back().e = t; B.lastPre = t; B.preed = true; B.freeAt = t; B.ap = false;
}
static u64 pdEarliest(RankM& R, u64 t) {
    u64 e = t;
    for (unsigned i = 0; i < NB; i++) {
        BankM& B = R.b[i];
        if (B.acted) e = mx(e, B.lastAct + tm.tRCD);
        if (B.preed) e = mx(e, B.lastPre + tm.tRP);
        e = mx(e, B.refEnd);
    }
    return e;
}
static bool anyOpen(RankM& R) { for (unsigned i = 0; i < NB; i++) if (R.b[i].open) return true; return false; }
static unsigned sameBank(unsigned b, unsigned k) {
#if defined(STD_DDR5)
    return (b % 2) + 2 * k; // 2 groups of 2 banks
#else
    (void)k; return b;
#endif
}
static void legalOps(std::vector<Op>& v) {
    for (unsigned r = 0; r < RANKS; r++) {
        RankM& R = rk[r];
        if (R.st == PDA) { v.push_back({PDXA_, r, 0}); continue; }
        if (R.st == PDP) { v.push_back({PDXP_, r, 0}); continue; }
        if (R.st == SREF) {
            v.push_back({SREX_, r, 0});
#if defined(STD_LPDDR5)
            v.push_back({DSEN_, r, 0});
#endif
            continue;
        }
        if (R.st == DSM) { v.push_back({DSEX_, r, 0}); continue; }
        for (unsigned k = 0; k < NT; k++) {
            unsigned b = TARGETS[k];
            if (R.b[b].open) {
                v.push_back({RD_, r, b}); v.push_back({WR_, r, b}); v.push_back({RDA_, r, b}); v.push_back({WRA_, r, b}); v.push_back({PRE_, r, b});
            } else {
                v.push_back({ACT_, r, b});
                if (!R.b[b].iv.empty()) v.push_back({PRE_, r, b});
#if defined(STD_LPDDR4) || defined(STD_LPDDR5)
                v.push_back({REFB_, r, b});
#endif
            }
        }
#if defined(STD_DDR5)
        for (unsigned k = 0; k < NT; k++) {
            unsigned b = TARGETS[k];
            if (!R.b[sameBank(b, 0)].open && !R.b[sameBank(b, 1)].open) v.push_back({REFSB_, r, b});
            v.push_back({PRESB_, r, b});
        }
#endif
#if defined(STD_LPDDR5)
        for (unsigned k = 0; k < NT; k++) { unsigned b = TARGETS[k]; if (!R.b[b].open && !R.b[(b + 8) % 16].open) v.push_back({REF2_, r, b}); }
#endif
#if defined(STD_LPDDR6)
        for (unsigned b = 0; b < 3; b += 1) { unsigned d = (b + 2) % 3; if (!R.b[b].open && !R.b[d].open) v.push_back({REF2_, r, b}); }
#endif
        v.push_back({PREA_, r, 0});
        if (anyOpen(R)) v.push_back({PDEA_, r, 0});
        else { v.push_back({REFA_, r, 0}); v.push_back({SREN_, r, 0}); v.push_back({PDEP_, r, 0}); }
    }
}
static CmdType apply(const Op& o, u64 t) {
    RankM& R = rk[o.r];
    BankM& B = R.b[o.b];
    switch (o.o) {
    case ACT_: vp_assume(t >= B.freeAt); B.open = true; B.act++; B.acted = true; B.lastAct = t; addIv(R, o.b, t, INF); return CmdType::ACT;
    case PRE_: prechargeBank(R, o.b, t); return CmdType::PRE;
    case PREA_: for (unsigned i = 0; i < NB; i++) prechargeBank(R, i, t); return CmdType::PREA;
    case PRESB_: prechargeBank(R, sameBank(o.b, 0), t); prechargeBank(R, sameBank(o.b, 1), t); return CmdType::PRESB;
    case RD_: B.rd++; return CmdType::RD;
    case WR_: B.wr++; return CmdType::WR;
    case RDA_: case WRA_: {
        bool w = o.o == WRA_; if (w) B.wra++; else B.rda++;
        u64 off = w ? tm.oWR : tm.oRD;
        u64 e = mx(B.lastAct + tm.tRAS, t + off);
        // known finding: after a power-down exit the code counts tRAS (and tRCD below) from the exit; outside the bound here
#ifndef PDX_FREE
        if (R.pdExited) vp_assume(t + off >= R.pdExit + tm.tRAS);
#endif
        B.open = false; B.ap = true; B.iv.back().e = e; B.freeAt = e; B.lastPre = e; B.preed = true; B.autoPre.push_back(e);
        return w ? CmdType::WRA : CmdType::RDA; }
    case REFA_: for (unsigned i = 0; i < NB; i++) { vp_assume(t >= R.b[i].freeAt); R.b[i].refA++; refreshBank(R, i, t, tm.tRFC); } return CmdType::REFA;
    case REFB_: vp_assume(t >= B.freeAt); B.refB++; refreshBank(R, o.b, t, tm.tRFCb); return CmdType::REFB;
    case REFSB_: for (unsigned k = 0; k < 2; k++) { unsigned b = sameBank(o.b, k); vp_assume(t >= R.b[b].freeAt); R.b[b].refB++; refreshBank(R, b, t, tm.tRFCb); } return CmdType::REFSB;
    case REF2_: {
#if defined(STD_LPDDR6)
        unsigned d = (o.b + 2) % 3;
#else
        unsigned d = (o.b + 8) % 16;
#endif
        vp_assume(t >= B.freeAt); vp_assume(t >= R.b[d % NB].freeAt);
        B.refB++; R.b[d % NB].refB++;
        refreshBank(R, o.b, t, tm.tRFCb); refreshBank(R, d % NB, t, tm.tRFCb);
#if defined(STD_LPDDR6)
        return CmdType::REFDB;
#else
        return CmdType::REFP2B;
#endif
        }
    case SREN_: for (unsigned i = 0; i < NB; i++) { vp_assume(t >= R.b[i].freeAt); R.b[i].refA++; refreshBank(R, i, t, tm.tRFC); }
        R.st = SREF; R.sref.push_back({t + tm.tRFC, INF}); return CmdType::SREFEN;
    case SREX_: vp_assume(t >= R.sref.back().s); R.sref.back().e = t; R.st = RUN; return CmdType::SREFEX;
    case DSEN_: vp_assume(t >= R.sref.back().s); R.dsm.push_back({t, INF}); R.st = DSM; return CmdType::DSMEN;
    case DSEX_: R.dsm.back().e = t; R.st = SREF; return CmdType::DSMEX;
    case PDEA_: case PDEP_: {
        for (unsigned i = 0; i < NB; i++) if (R.b[i].ap) vp_assume(t >= R.b[i].freeAt); // no entry while an auto-precharge is outstanding
#ifndef PDX_FREE
        if (R.pdExited) vp_assume(t >= R.pdExit + tm.tRCD);
#endif
        u64 e = pdEarliest(R, t);
        R.pdEntry = e;
        if (o.o == PDEA_) {
            R.pda.push_back({e, INF}); R.st = PDA;
            for (unsigned i = 0; i < NB; i++) if (R.b[i].open) R.b[i].pdWhileOpen.push_back({e, INF});
            return CmdType::PDEA;
        }
        R.pdp.push_back({e, INF}); R.st = PDP;
        return CmdType::PDEP; }
    case PDXA_: vp_assume(t >= R.pdEntry); R.pda.back().e = t; R.st = RUN; R.pdExit = t; R.pdExited = true;
        for (unsigned i = 0; i < NB; i++) if (R.b[i].open) R.b[i].pdWhileOpen.back().e = t;
        return CmdType::PDXA;
    case PDXP_: vp_assume(t >= R.pdEntry); R.pdp.back().e = t; R.st = RUN; R.pdExit = t; R.pdExited = true; return CmdType::PDXP;
    }
    return CmdType::NOP;
}
static u64 len(const std::vector<Interval>& v, u64 T) { u64 a = 0; for (auto& i : v) a += mn(i.e, T) - mn(i.s, T); return a; }

static void compare(const SimulationStats& s, u64 T) {
    CHECK(s.bank.size() == (size_t)NB * RANKS && s.rank_total.size() == RANKS, "stats cover every bank and rank");
    for (unsigned r = 0; r < RANKS; r++) {
        RankM& R = rk[r];
        u64 pda = len(R.pda, T), pdp = len(R.pdp, T), sr = len(R.sref, T), ds = len(R.dsm, T);
        u64 uni = 0, cur = 0;
        for (size_t i = 0; i < R.allBank.size(); i++) {
            Interval iv = R.b[R.allBank[i]].iv[R.allIdx[i]];
            u64 e = mn(iv.e, T), st = mx(mn(iv.s, T), cur);
            uni += e > st ? e - st : 0;
            cur = mx(cur, e);
        }
        u64 ract = uni - pda;
        const auto& rc = s.rank_total[r].cycles;
        vp_log("rank.act", rc.act); vp_log("rank.pre", rc.pre);
        CHECK(rc.powerDownAct == pda, "rank active power-down cycles");
        CHECK(rc.powerDownPre == pdp, "rank precharge power-down cycles");
        CHECK(rc.selfRefresh == sr - ds, "rank self-refresh cycles");
        CHECK(rc.act == ract, "rank active cycles");
        CHECK(rc.pre == T - (ract + pda + pdp + sr), "rank precharged cycles");
#if defined(STD_LPDDR5)
        CHECK(rc.deepSleepMode == ds, "rank deep-sleep cycles");
#endif
        for (unsigned b = 0; b < NB; b++) {
#if NB > 4
            if (b > 1 && b != TARGETS[1] && b != NB - 1) continue; // the others are treated alike by REFA/PREA
#endif
            BankM& B = R.b[b];
            const auto& sb = s.bank[r * NB + b];
            u64 act = len(B.iv, T) - len(B.pdWhileOpen, T);
            u64 pre = B.pre; for (u64 a : B.autoPre) pre += a <= T ? 1 : 0;
            vp_log("bank.act", sb.cycles.act); vp_log("bank.pre", sb.cycles.pre);
            CHECK(sb.counter.act == B.act, "ACT count");
            CHECK(sb.counter.pre == pre, "PRE count (transitions to precharged)");
            CHECK(sb.counter.reads == B.rd && sb.counter.writes == B.wr, "RD/WR counts");
            CHECK(sb.counter.readAuto == B.rda && sb.counter.writeAuto == B.wra, "RDA/WRA counts");
            CHECK(sb.counter.refAllBank == B.refA, "REFA count");
            u64 other = sb.counter.refPerBank + sb.counter.refPerTwoBanks + sb.counter.refDualBanks + sb.counter.refSameBank;
            CHECK(other == B.refB, "per-bank refresh counts");
#if defined(STD_DDR5)
            CHECK(sb.counter.refSameBank == B.refB, "REFSB count");
#elif defined(STD_LPDDR6)
            CHECK(sb.counter.refDualBanks == B.refB, "REFDB count");
#endif
            CHECK(sb.cycles.act == act, "bank active cycles");
            CHECK(sb.cycles.powerDownAct == pda && sb.cycles.powerDownPre == pdp, "bank power-down cycles");
            CHECK(sb.cycles.selfRefresh == sr - ds, "bank self-refresh cycles");
            CHECK(sb.cycles.pre == T - (act + pda + pdp + sr), "bank precharged cycles");
#if defined(STD_LPDDR5)
            CHECK(sb.cycles.deepSleepMode == ds, "bank deep-sleep cycles");
#endif
        }
    }
}

int vp_main() {
#if defined(STD_DDR4)
    auto s = raw::ddr4({NB, 1, RANKS, 1, 8, 8, 2});
#elif defined(STD_DDR5)
    auto s = raw::ddr5({NB, 2, RANKS, 1, 8, 16, 2});
#elif defined(STD_LPDDR4)
    auto s = raw::lpddr4({NB, 1, RANKS, 1, 16, 16, 2});
#elif defined(STD_LPDDR5)
    auto s = raw::lpddr5({NB, 1, RANKS, 1, 16, 16, 2});
#elif defined(STD_LPDDR6)
    auto s = raw::lpddr6({NB, 1, RANKS, 1, 12, 24, 2});
#endif
    auto& t = s.memtimingspec;
    t.RAS = timing("tRAS"); t.WR = timing("tWR"); t.WL = timing("tWL");
    u64 rcd = timing("tRCD"), rp = timing("tRP"), rfc = timing("tRFC"), rfcb = timing("tRFCb"), rtp = timing("tRTP");
    vp_assume(rcd <= t.RAS); vp_assume(rcd <= rfcb); vp_assume(rfcb <= rfc); vp_assume(rfcb >= 1); vp_assume(rfc >= 1);
#if defined(STD_DDR4)
    t.RCD = rcd; t.RP = rp; t.RFC1 = rfc; t.RTP = rtp; MemSpecDDR4 ms(s);
    tm = {t.RAS, rcd, rp, rfc, rfcb, ms.prechargeOffsetRD, ms.prechargeOffsetWR}; using Core = DDR4Core;
#elif defined(STD_DDR5)
    t.RCD = rcd; t.RP = rp; t.RFC1_slr = rfc; t.RFCsb_slr = rfcb; t.RTP = rtp; MemSpecDDR5 ms(s);
    tm = {t.RAS, rcd, rp, rfc, rfcb, ms.prechargeOffsetRD, ms.prechargeOffsetWR}; using Core = DDR5Core;
#elif defined(STD_LPDDR4)
    t.RCD = rcd; t.RPpb = rp; t.RFCab = rfc; t.RFCpb = rfcb; t.RTP = rtp; MemSpecLPDDR4 ms(s);
    tm = {t.RAS, rcd, rp, rfc, rfcb, ms.prechargeOffsetRD, ms.prechargeOffsetWR}; using Core = LPDDR4Core;
#elif defined(STD_LPDDR5)
    t.RCD_S = rcd; t.RPpb = rp; t.RFCab = rfc; t.RFCpb = rfcb; t.RBTP = rtp; MemSpecLPDDR5 ms(s);
    tm = {t.RAS, rcd, rp, rfc, rfcb, ms.prechargeOffsetRD, ms.prechargeOffsetWR}; using Core = LPDDR5Core;
#elif defined(STD_LPDDR6)
    t.RCD_r = rcd; u64 rcdw = timing("tRCDw"); vp_assume(rcdw <= t.RAS && rcdw <= rfcb); t.RCD_w = rcdw; t.RPpb = rp; t.RFCab = rfc; t.RFCdb = rfcb; t.RBTP = rtp; MemSpecLPDDR6 ms(s);
    tm = {t.RAS, mx(rcd, rcdw), rp, rfc, rfcb, ms.prechargeOffsetRD, ms.prechargeOffsetWR}; using Core = LPDDR6Core;
#endif
    Core* pc = new Core(ms);
#define core (*pc)
    u64 now = 0;
#ifdef RESTORE // at one point, after a query, continue with a core restored from a checkpoint
    u64 mid = 0, rest = 1 + vp_choice("restore", NCMD);
    auto checkpoint = [&](u64 t) {
        SimulationStats st; core.getWindowStats(t, st);
        if (!core.isSerializable()) { vp_cover("not serializable"); return; }
        Store b; core.serialize(b.out());
        Core* n = new Core(ms); n->deserialize(b.in());
        CHECK(b.all_read(), "the checkpoint is read completely");
        SimulationStats s2; n->getWindowStats(t, s2); compare(s2, t);
        delete pc; pc = n; vp_cover("restored");
    };
#else
    u64 mid = vp_choice("mid", 2);
#endif
    for (unsigned k = 0; k < NCMD; k++) {
        std::vector<Op> v; legalOps(v);
#ifdef SKEL
        std::vector<Op> w; for (auto& x : v) for (OP y : skel[k]) if (x.o == y) { w.push_back(x); break; }
        v.swap(w);
        if (v.empty()) { vp_assume(false); return 0; }
#endif
        Op o = v[vp_choice("op", v.size())];
        now += vp_sym_bits("d", TB);
        if (mid && k == NCMD - 1) { // an intermediate query is itself right and must not change what follows
            SimulationStats st; core.getWindowStats(now, st); compare(st, now);
        }
#ifdef RESTORE
        if (k == rest) checkpoint(now);
#endif
        CmdType c = apply(o, now);
#if defined(STD_LPDDR6)
        LPDDR6TargetCoordinate tc; tc.bank = o.b; tc.dbank = (o.b + 2) % 3; tc.rank = o.r;
        core.doCommand(LPDDR6Command(now, c, tc));
#else
        core.doCommand(Command(now, c, TargetCoordinate(o.b, 0, o.r)));
#endif
        u64 lc = core.getLastCommandTime();
        CHECK(lc == now, "last command time");
        vp_cover(CmdTypeUtil::to_string(c));
    }
#ifdef RESTORE
    if (rest == NCMD) { now += vp_sym_bits("d", TB); checkpoint(now); }
#endif
    u64 T = now + vp_sym_bits("dT", TB + 1);
    SimulationStats st;
    core.getWindowStats(T, st);
    compare(st, T);
    // pending delayed effects (auto-precharge, refresh end, delayed entry) block serialization, nothing else does
    bool pend = false;
    for (unsigned r = 0; r < RANKS; r++) {
        RankM& R = rk[r];
        for (unsigned b = 0; b < NB; b++) pend = pend | ((!R.b[b].open) & (R.b[b].freeAt > T)) | (R.b[b].refEnd > T);
        for (auto& i : R.pda) pend = pend | (i.s > T);
        for (auto& i : R.pdp) pend = pend | (i.s > T);
        for (auto& i : R.sref) pend = pend | (i.s > T);
    }
    CHECK(core.isSerializable() == !pend, "serializable exactly when no delayed effect is outstanding");
    return 0;
}
