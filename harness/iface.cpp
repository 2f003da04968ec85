// Command/data interface of one standard against independent command tables and explicit waveforms: NCMD commands of any
// type with arbitrary times, coordinates and data. -DSTD_<standard> -DNCMD=<commands> -DBEATS=<burst lengths to try, 0 = no data>
// -DLANES=<device width / 8> [-DDBI_OPS: DBI switched on/off per command] [-DCMDS=<types>] [-DDR=<data rate>]
#include "wave.h"
#include "specs.h"
#include "store.h"
#include <string>
#include <sstream>
#include <cstring>
#ifndef LANES
#define LANES 1
#endif
#ifndef DEVICES
#define DEVICES 1
#endif
#if defined(STD_DDR4)
#include <DRAMPower/standards/ddr4/DDR4Interface.h>
#define RAW ddr4
typedef DRAMPower::MemSpecDDR4 MSpec; typedef DRAMPower::DDR4Interface Iface;
static const unsigned CAW = 27, CAR = 1; static const bool CAH = true, DQH = true; enum { DQSPAIRS_X16 = 1, HASWCK = 0, HASWDQS = 1, HASDBI = 1 };
#elif defined(STD_DDR5)
#include <DRAMPower/standards/ddr5/DDR5Interface.h>
#define RAW ddr5
typedef DRAMPower::MemSpecDDR5 MSpec; typedef DRAMPower::DDR5Interface Iface;
static const unsigned CAW = 14, CAR = 1; static const bool CAH = true, DQH = true; enum { DQSPAIRS_X16 = 1, HASWCK = 0, HASWDQS = 1, HASDBI = 0 };
#elif defined(STD_LPDDR4)
#include <DRAMPower/standards/lpddr4/LPDDR4Interface.h>
#define RAW lpddr4
typedef DRAMPower::MemSpecLPDDR4 MSpec; typedef DRAMPower::LPDDR4Interface Iface;
static const unsigned CAW = 6, CAR = 1; static const bool CAH = false, DQH = false; enum { DQSPAIRS_X16 = 1, HASWCK = 0, HASWDQS = 1, HASDBI = 1 };
#elif defined(STD_LPDDR5)
#include <DRAMPower/standards/lpddr5/LPDDR5Interface.h>
#define RAW lpddr5
typedef DRAMPower::MemSpecLPDDR5 MSpec; typedef DRAMPower::LPDDR5Interface Iface;
static const unsigned CAW = 7, CAR = 2; static const bool CAH = false, DQH = false; enum { DQSPAIRS_X16 = 0, HASWCK = 1, HASWDQS = 0, HASDBI = 1 };
#elif defined(STD_LPDDR6)
#include <DRAMPower/standards/lpddr6/LPDDR6Interface.h>
#define RAW lpddr6
typedef DRAMPower::MemSpecLPDDR6 MSpec; typedef DRAMPower::LPDDR6Interface Iface;
static const unsigned CAW = 4, CAR = 2; static const bool CAH = false, DQH = false; enum { DQSPAIRS_X16 = 0, HASWCK = 1, HASWDQS = 0, HASDBI = 1 };
#endif
#ifndef DR
#define DR 2
#endif
#ifndef WCKR
#define WCKR 1
#endif
#ifndef ARCH
#define ARCH 0
#endif
#if defined(STD_LPDDR6)
#define DQW 12
#else
#define DQW (8 * LANES * DEVICES)
#endif
using namespace DRAMPower;
typedef CmdType C;
struct Coord { u64 row[19], col[17], ba[4], bg[3]; u64 rank; };
static int arch; // LPDDR5 bank architecture: 0 MBG, 1 16 banks, 2 8 banks

// ---- command tables: one token per line and beat, most significant line first -----------------------------------
static std::string table(C c) {
    auto rep = [](const char* s, int n) { std::string r; for (int i = 0; i < n; i++) r += s; return r; };
    (void)rep;
#if defined(STD_DDR4)
    const std::string bank = "BG0 BG1 BA0 BA1 V V V V V V V ", col = "C0 C1 C2 C3 C4 C5 C6 C7 C8 C9 ";
    switch (c) {
    case C::ACT: return "L L R16 R15 R14 BG0 BG1 BA0 BA1 V V V R12 R17 R13 R11 R10 R0 R1 R2 R3 R4 R5 R6 R7 R8 R9 ";
    case C::PRE: return "L H L H L " + bank + "L " + rep("V ", 10);
    case C::PREA: return "L H L H L " + rep("V ", 11) + "H " + rep("V ", 10);
    case C::REFA: case C::SREFEN: return "L H L L H " + rep("V ", 22);
    case C::RD: return "L H H L H " + bank + "L " + col;
    case C::RDA: return "L H H L H " + bank + "H " + col;
    case C::WR: return "L H H L L " + bank + "L " + col;
    case C::WRA: return "L H H L L " + bank + "H " + col;
    case C::SREFEX: return "H " + rep("X ", 26) + "L H H H H " + rep("V ", 22);
    case C::PDEA: case C::PDEP: case C::PDXA: case C::PDXP: return "H " + rep("X ", 26);
    default: return "";
    }
#elif defined(STD_DDR5)
    const std::string b5 = "BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 ";
    switch (c) {
    case C::ACT: return "L L R0 R1 R2 R3 " + b5 + "R4 R5 R6 R7 R8 R9 R10 R11 R12 R13 R14 R15 R16 CID3 ";
    case C::PRE: return "H H L H H CID3 " + b5;
    case C::RD: return "H L H H H H " + b5 + "C2 C3 C4 C5 C6 C7 C8 C9 C10 V H V V CID3 ";
    case C::RDA: return "H L H H H H " + b5 + "C2 C3 C4 C5 C6 C7 C8 C9 C10 V L V V CID3 ";
    case C::WR: return "H L H H L H " + b5 + "V C3 C4 C5 C6 C7 C8 C9 C10 V H H V CID3 ";
    case C::WRA: return "H L H H L H " + b5 + "V C3 C4 C5 C6 C7 C8 C9 C10 V L H V CID3 ";
    case C::PRESB: return "H H L H L CID3 BA0 BA1 V V H CID0 CID1 CID2 ";
    case C::REFSB: return "H H L L H CID3 BA0 BA1 V V H CID0 CID1 CID2 ";
    case C::REFA: return "H H L L H CID3 V V V V L CID0 CID1 CID2 ";
    case C::PREA: return "H H L H L CID3 V V V V L CID0 CID1 CID2 ";
    case C::SREFEN: return "H H H L H V V V V H L V V V ";
    case C::PDEA: case C::PDEP: return "H H H L H V V V V V H L V V ";
    case C::PDXA: case C::PDXP: return "H H H H H V V V V V V V V V ";
    default: return "";
    }
#elif defined(STD_LPDDR4)
    const std::string v6 = "V V V V V V ", b3 = "BA0 BA1 BA2 V V V ";
    switch (c) {
    case C::ACT: return "H L R12 R13 R14 R15 BA0 BA1 BA2 R16 R10 R11 R17 R18 R6 R7 R8 R9 R0 R1 R2 R3 R4 R5 ";
    case C::PRE: return "L L L L H L " + b3;
    case C::PREA: return "L L L L H H " + v6;
    case C::REFB: return "L L L H L L " + b3;
    case C::REFA: return "L L L H L H " + v6;
    case C::RD: return "L H L L L BL BA0 BA1 BA2 V C9 L L H L L H C8 C2 C3 C4 C5 C6 C7 ";
    case C::RDA: return "L H L L L BL BA0 BA1 BA2 V C9 H L H L L H C8 C2 C3 C4 C5 C6 C7 ";
    case C::WR: return "L L H L L BL BA0 BA1 BA2 V C9 L L H L L H C8 C2 C3 C4 C5 C6 C7 ";
    case C::WRA: return "L L H L L BL BA0 BA1 BA2 V C9 H L H L L H C8 C2 C3 C4 C5 C6 C7 ";
    case C::SREFEN: return "L L L H H V " + v6;
    case C::SREFEX: return "L L H L H V " + v6;
    default: return "";
    }
#elif defined(STD_LPDDR5)
    const std::string b = arch == 0 ? "BA0 BA1 BG0 BG1 " : arch == 1 ? "BA0 BA1 BA2 BA3 " : "BA0 BA1 BA2 V ";
    const std::string rb = arch == 2 ? std::string("BA0 BA1 BA2 L ") : b, fb = arch == 0 ? "BA0 BA1 BG0 V V V " : "BA0 BA1 BA2 V V V ";
    const std::string col = "C0 C3 C4 C5 ";
    switch (c) {
    case C::ACT: return "H H H R14 R15 R16 R17 " + b + "R11 R12 R13 H H L R7 R8 R9 R10 R0 R1 R2 R3 R4 R5 R6 ";
    case C::PRE: return "L L L H H H H " + b + "V V L ";
    case C::PREA: return "L L L H H H H " + rep("V ", 6) + "H ";
    case C::REFB: return "L L L H H H L " + fb + "L ";
    case C::REFP2B: return "L L L H H H L " + fb + "L ";
    case C::REFA: return "L L L H H H L " + rep("V ", 6) + "H ";
    case C::RD: return "H L L " + col + rb + "C1 C2 L ";
    case C::RDA: return "H L L " + col + rb + "C1 C2 H ";
    case C::WR: return "L H H " + col + b + "C1 C2 L ";
    case C::WRA: return "L H H " + col + b + "C1 C2 H ";
    case C::SREFEN: return "L L L H L H H V V V V V L L ";
    case C::PDEA: case C::PDEP: return "L L L H L H H V V V V V L H ";
    case C::DSMEN: return "L L L H L H H V V V V V H L ";
    case C::SREFEX: case C::PDXA: case C::PDXP: case C::DSMEX: return "L L L H L H L " + rep("V ", 7);
    default: return "";
    }
#else
    const std::string b = "BA0 BA1 BG0 BG1 ", x8 = rep("X ", 8);
    switch (c) {
    case C::NOP: return "L L L PAR L L L V " + x8;
    case C::PDEA: case C::PDEP: return "L L L PAR L H L V " + x8;
    case C::PDXA: case C::PDXP: return "V X X X V X X X V X X X V X X X ";
    case C::SREFEN: return "L L L PAR L L H H " + x8;
    case C::SREFEX: return "L L L PAR L H H V " + x8;
    case C::PRE: return "L L L PAR H H V SC V V V L " + b;
    case C::PREA: return "L L L PAR H H V SC V V V H X X X X ";
    case C::REFDB: return "L L L PAR H L L SC DBG0 DBG1 V L " + b;
    case C::REFA: return "L L L PAR H L L SC X X V H X X X X ";
    case C::ACT: return "H H H PAR H R15 R16 SC R11 R12 R13 R14 " + b + "H H H PAR L R8 R9 R10 R4 R5 R6 R7 R0 R1 R2 R3 ";
    case C::WR: return "BL L H PAR C0 C1 L SC C2 C3 C4 C5 " + b;
    case C::WRA: return "BL L H PAR C0 C1 H SC C2 C3 C4 C5 " + b;
    case C::RD: return "BL H L PAR C0 C1 L SC C2 C3 C4 C5 " + b;
    case C::RDA: return "BL H L PAR C0 C1 H SC C2 C3 C4 C5 " + b;
    default: return "";
    }
#endif
}
static bool isRead(C c) { return c == C::RD || c == C::RDA; }
static bool isData(C c) { return isRead(c) || c == C::WR || c == C::WRA; }
static u64 columnBit(unsigned n, u64 len, bool rd, const Coord& q) { // burst-length dependent low column bits
#if defined(STD_DDR4)
    if (n == 2) return !rd && len != 4;
    if (n <= 1) return !rd;
#elif defined(STD_DDR5)
    if (n == 2) return !rd;
    if (n == 3) return !rd && len != 8;
    if (n == 10 && len == 32) return 0;
#elif defined(STD_LPDDR4)
    if (n <= 3 || (n == 4 && len == 32)) return 0;
#elif defined(STD_LPDDR5)
    if (n == 0 && len == 32) return 0;
#else
    if (n == 0 && len != 24) return 0;
#endif
    return q.col[n];
}
static std::vector<Beat> caBeats(C c, const Coord& q, u64 len, bool par) {
    std::string s = table(c); std::vector<Beat> r; std::vector<std::string> tok; size_t p = 0;
    while (p < s.size()) { size_t e = s.find(' ', p); tok.push_back(s.substr(p, e - p)); p = e + 1; }
    std::vector<u64> v;
    for (auto& t : tok) {
        u64 x = 0; unsigned n = 0; size_t k = t.size(); while (k && t[k - 1] >= '0' && t[k - 1] <= '9') k--;
        for (size_t i = k; i < t.size(); i++) n = n * 10 + (t[i] - '0');
        std::string f = t.substr(0, k);
        if (f == "H") x = 1; else if (f == "L") x = 0;
        else if (f == "V" || f == "X") x = CAH;
        else if (f == "R") x = q.row[n]; else if (f == "C") x = columnBit(n, len, isRead(c), q);
        else if (f == "BA") x = q.ba[n]; else if (f == "BG") x = q.bg[n];
        else if (f == "CID") x = 1;
        else if (f == "BL") {
#if defined(STD_LPDDR6)
            x = len == 24;
#else
            x = len == 32;
#endif
        } else if (f == "DBG") x = n ? q.ba[3] ^ 1 : q.ba[2]; // partner bank: 8 banks further
        v.push_back(x);
    }
#if defined(STD_LPDDR6)
    if (par) for (size_t g = 0; g < v.size(); g += 16) if (tok[g + 3] == "PAR") { u64 x = 0; for (size_t i = g; i < g + 16; i++) x ^= v[i]; v[g + 3] = x; }
#endif
    for (size_t i = 0; i < v.size(); i += CAW) r.push_back(Beat(v.begin() + i, v.begin() + i + CAW));
    return r;
}
static u64 bit(const char* n) { return vp_sym_bits(n, 1); }

static const unsigned beats[] = {BEATS}; // 0: a data command without data
#ifdef TFIX
#define BEATS_ANY 0
#else
#define BEATS_ANY (beats[0] != 0)
#endif
int vp_main() {
    Arch a{16, 4, 2, DEVICES, 8 * LANES, 16, DR};
#if defined(STD_LPDDR6)
    a.width = 12; a.bl = 24;
#elif defined(STD_LPDDR5)
    arch = ARCH; a.banks = arch == 2 ? 8 : 16; a.groups = arch == 0 ? 4 : 1;
#elif defined(STD_DDR4)
    a.bl = 8;
#endif
    auto spec = raw::RAW(a); bool always = false; u64 wckrate = 0, dqsrate = DR;
#if defined(STD_LPDDR5) || defined(STD_LPDDR6)
    spec.memtimingspec.WCK2CK = WCKR; always = BEATS_ANY && vp_choice("wckAlwaysOn", 2); spec.memarchitecturespec.WCKalwaysOn = always; wckrate = DR / WCKR;
#endif
#if defined(STD_DDR5)
    dqsrate = 2 + 2 * vp_choice("dqsrate", 2); spec.dataratespec = DRAMUtils::MemSpec::DataRateSpecTypeDDR5{2, DR, dqsrate};
#endif
    MSpec ms(spec);
    Iface* pf = new Iface(ms, {});
#define f (*pf)
#ifdef RESTORE
    u64 rest = vp_choice("restore", NCMD);
#endif
    Wave ca(CAW, CAH), rb(DQW, DQH), wb(DQW, DQH);
#if !defined(STD_LPDDR6)
    std::vector<Wave> rp(LANES * DEVICES, Wave(1, DQH)), wp(LANES * DEVICES, Wave(1, DQH));
#endif
    u64 now = 0, dqsR = 0, dqsW = 0, wck = 0, busyR = 0, busyW = 0; bool par = false;
    u64 seam[2][2] = {}, lastEnd[2][2] = {}; bool had[2][2] = {};
    uint8_t buf[NCMD][72];
#if defined(STD_LPDDR6)
    if ((BEATS_ANY || beats[0] == 0) && vp_choice("parity", 2)) { par = true; f.setParityCheckMode(true); }
    uint16_t meta[2] = {0, 0};
#ifdef META
    for (int k = 0; k < 2; k++) for (int i = 0; i < 16; i++) meta[k] |= bit("m") << i;
    f.setMetaData(meta[0], meta[1]);
#endif
#endif
    for (unsigned k = 0; k < NCMD; k++) {
        static const C types[] = {CMDS};
        C c = types[vp_choice("cmd", sizeof(types) / sizeof(types[0]))];
        now += vp_sym_bits("d", 12);
#ifdef STD_DDR4
        vp_assume(now > 0);
#endif
        Coord q; TargetCoordinate t; t.bank = 0; t.bankGroup = 0; t.row = 0; t.column = 0;
        
#ifdef STD_DDR4
        q.rank = isData(c) ? vp_choice("rank", 2) : 0;
#else
        q.rank = 1;
#endif
        t.rank = q.rank;
        for (unsigned i = 0; i < 19; i++) t.row |= (q.row[i] = bit("row")) << i;
        for (unsigned i = 0; i < 17; i++) t.column |= (q.col[i] = bit("col")) << i;
        for (unsigned i = 0; i < 4; i++) t.bank |= (q.ba[i] = bit("bank")) << i;
        for (unsigned i = 0; i < 3; i++) t.bankGroup |= (q.bg[i] = bit("bg")) << i;
#if defined(STD_LPDDR5)
        if (arch == 0 && (c == C::PREA || c == C::REFA)) { t.bankGroup = 0; q.bg[0] = q.bg[1] = q.bg[2] = 0; } // not bank commands: the bank group lines carry any valid level
#endif
        unsigned n = 0; Command cmd(now, c, t);
        if (isData(c)) {
            n = beats[vp_choice("beats", sizeof(beats) / sizeof(beats[0]))];
            bool dbi = false;
#ifdef DBI_OPS
            dbi = vp_choice("dbi", 2); f.enableDBI(dbi);
#endif
            if (n) {
#if defined(STD_LPDDR6)
                unsigned bits = n / 24 * 256;
#else
                unsigned bits = n * DQW;
#endif
                std::vector<u64> d(bits); memset(buf[k], 0, sizeof buf[k]);
                unsigned only = ~0u;
#if defined(STD_LPDDR6) && defined(DBI_OPS)
                only = vp_choice("group", bits / 16); // one 16-bit group holds any data, the others a fixed pattern
#endif
#ifdef CONSTD
                only = ~0u - 1; // fixed data
#endif
                for (unsigned i = 0; i < bits; i++) { d[i] = only == ~0u || i / 16 == only ? bit("b") : (0x6996c35ab71eull * (i / 16 + 3)) >> (i % 16 + 5) & 1; buf[k][i / 8] |= d[i] << (i % 8); }
                cmd.data = buf[k]; cmd.sz_bits = bits;
                bool rd = isRead(c); u64& busy = rd ? busyR : busyW; vp_assume(now * DR >= busy); busy = now * DR + n;
                std::vector<Beat> play;
#if defined(STD_LPDDR6)
                // 16-bit groups with more ones than zeroes are inverted; 24 beats of 12 lines: columns of 4 beats, line by line,
                // metadata (beats 8-11) and inversion flags (beats 20-23) on lines 4, 5, 10, 11
                std::vector<u64> flag(32, 0);
                if (dbi) for (unsigned g = 0; g < bits / 16; g++) {
                    u64 ones = 0; for (unsigned i = 0; i < 16; i++) ones += d[16 * g + i];
                    if (vp_fork(ones > 8)) { flag[g] = 1; for (unsigned i = 0; i < 16; i++) d[16 * g + i] ^= 1; }
                }
                for (unsigned h = 0; h < n / 24; h++) {
                    Beat line[24]; unsigned pos = 256 * h;
                    for (unsigned colm = 0; colm < 6; colm++) for (unsigned dq = 0; dq < 12; dq++) for (unsigned i = 0; i < 4; i++) {
                        unsigned beat = colm * 4 + i; int sp = dq == 4 ? 0 : dq == 5 ? 1 : dq == 10 ? 2 : dq == 11 ? 3 : -1;
                        u64 v; if (colm == 2 && sp >= 0) v = meta[h] >> (sp * 4 + i) & 1; else if (colm == 5 && sp >= 0) v = flag[16 * h + sp * 4 + i]; else v = d[pos++];
                        line[beat].push_back(v);
                    }
                    for (auto& l : line) play.push_back(l);
                }
#else
                for (unsigned ch = 0; ch < n; ch++) { // chunk ch: bits ch*DQW ..
                    Beat b;
                    for (unsigned l = 0; l < LANES * DEVICES; l++) {
                        u64 o = 0; for (unsigned i = 0; i < 8; i++) o += d[ch * DQW + l * 8 + i];
                        bool inv = dbi && vp_fork(DQH ? o < 4 : o > 4);
                        for (unsigned i = 0; i < 8; i++) b.push_back(d[ch * DQW + l * 8 + i] ^ (inv ? 1 : 0));
                        if (dbi) { auto& w = (rd ? rp : wp)[l]; if (ch == 0) w.load(now * DR, {}); w.seg.back().l.back().b.push_back(Beat(1, inv ? !DQH : DQH)); }
                    }
                    play.insert(play.begin(), b); // the bus sends the last chunk first
                }
#endif
                (rd ? rb : wb).load(now * DR, play);
            }
            u64 dur = n / DR; bool rd = isRead(c); (rd ? dqsR : dqsW) += dur; if (!always) wck += dur;
            if (had[q.rank][rd] && lastEnd[q.rank][rd] == now) seam[q.rank][rd]++;
            had[q.rank][rd] = true; lastEnd[q.rank][rd] = now + dur;
            vp_cover("data");
        }
        auto cb = caBeats(c, q, n, par);
        if (!cb.empty()) { vp_assume(now * CAR >= ca.freeAt()); ca.load(now * CAR, cb); }
        try { f.doCommand(cmd); } catch (...) { CHECK(false, "no legal command throws"); }
#ifdef RESTORE
        if (k == rest) { // continue with an interface restored from a checkpoint
            Store b; f.serialize(b.out());
            Iface* n = new Iface(ms, {}); n->deserialize(b.in()); CHECK(b.all_read(), "the checkpoint is read completely");
            delete pf; pf = n; vp_cover("restored");
        }
#endif
    }
#ifdef TFIX // the query comes after every burst
    u64 T = now + 64;
#else
    u64 T = now + vp_sym_bits("dT", 12);
#endif
    SimulationStats st; f.getWindowStats(T, st);
    checkWave(st.commandBus, ca.at(T * CAR), "command bus statistics");
#ifndef NODATA
    checkWave(st.readBus, rb.at(T * DR), "read data bus statistics");
    checkWave(st.writeBus, wb.at(T * DR), "write data bus statistics");
#if !defined(STD_LPDDR6)
    WStats r, w; auto add = [](WStats& s, const WStats& o) { s.ones += o.ones; s.zeroes += o.zeroes; s.changes += o.changes; s.o2z += o.o2z; s.z2o += o.z2o; };
    if (HASDBI) for (auto& p : rp) add(r, p.at(T * DR));
    if (HASDBI) for (auto& p : wp) add(w, p.at(T * DR));
    checkWave(st.readDBI, r, "read DBI pin statistics"); checkWave(st.writeDBI, w, "write DBI pin statistics");
#endif
#endif
    auto clk = [&](const auto& s, u64 ticks, u64 rate, u64 lines, const char* what) {
        u64 v = ticks * rate / 2 * lines; vp_log("clk", s.ones);
        CHECK(s.ones == v && s.zeroes == v && s.zeroes_to_ones == v && s.ones_to_zeroes == v && s.bit_changes == 2 * v, what);
    };
    clk(st.clockStats, T, 2, 2, "clock statistics");
    u64 lines = 2 * (DQSPAIRS_X16 && LANES == 2 ? 2 : 1);
    if (DR > 1 && T * DR >= busyR && T * DR >= busyW) {
        clk(st.readDQSStats, dqsR, dqsrate, lines, "read DQS statistics");
        clk(st.writeDQSStats, HASWDQS ? dqsW : 0, dqsrate, lines, "write DQS statistics");
        clk(st.wClockStats, HASWCK ? (always ? T : wck) : 0, wckrate, 2, "WCK statistics");
        vp_cover("complete");
    }
#ifdef STD_DDR4
    for (unsigned r = 0; r < 2; r++) { CHECK(st.rank_total[r].prepos.readSeamless == seam[r][1], "seamless reads per rank"); CHECK(st.rank_total[r].prepos.writeSeamless == seam[r][0], "seamless writes per rank"); }
#endif
    CHECK(f.getLastCommandTime() == now, "last command time");
    return 0;
}
