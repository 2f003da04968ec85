// Memory specifications for the harnesses. The raw (DRAMUtils) structure is filled with fixed, realistic
// defaults; a harness overwrites the fields it makes symbolic before the MemSpec class is constructed.
#pragma once
#include <vp.h>
#include <cstdint>
#include <string>
#include <DRAMUtils/memspec/MemSpec.h>
struct Arch { uint64_t banks, groups, ranks, devices, width, bl, dr; };
namespace raw {
namespace MS = DRAMUtils::MemSpec;
template <class S> inline void arch(S& s, const Arch& a) {
    auto& m = s.memarchitecturespec;
    m.nbrOfChannels = 1; m.nbrOfColumns = 1024; m.nbrOfRows = 65536; m.width = a.width; m.burstLength = a.bl; m.maxBurstLength = a.bl;
    m.dataRate = a.dr; m.nbrOfBankGroups = a.groups; m.nbrOfBanks = a.banks; m.nbrOfRanks = a.ranks; m.nbrOfDevices = a.devices;
    s.memtimingspec.tCK = 1.0;
}
inline MS::MemSpecDDR4 ddr4(const Arch& a) {
    MS::MemSpecDDR4 s; arch(s, a); s.memarchitecturespec.RefMode = MS::RefModeTypeDDR4::REF_MODE_1;
    auto& t = s.memtimingspec; t.RAS = 10; t.RCD = 4; t.RTP = 3; t.WL = 3; t.WR = 4; t.RP = 5; t.AL = 0; t.RFC1 = 25; t.RFC2 = 20; t.RFC4 = 15;
    auto& p = s.prepostamble; p = {}; return s;
}
inline MS::MemSpecDDR5 ddr5(const Arch& a) {
    MS::MemSpecDDR5 s; arch(s, a); s.memarchitecturespec.RefMode = MS::RefModeTypeDDR5::REF_MODE_1;
    auto& t = s.memtimingspec; t.RAS = 10; t.RCD = 4; t.RTP = 3; t.WL = 3; t.WR = 4; t.RP = 5; t.RFC1_slr = 25; t.RFC2_slr = 20; t.RFCsb_slr = 12;
    return s;
}
inline MS::MemSpecLPDDR4 lpddr4(const Arch& a) {
    MS::MemSpecLPDDR4 s; arch(s, a);
    auto& t = s.memtimingspec; t.RAS = 10; t.RCD = 4; t.RL = 3; t.RTP = 3; t.WL = 3; t.WR = 4; t.RPpb = 5; t.RFCpb = 12; t.RFCab = 25; t.REFI = 100;
    return s;
}
inline MS::MemSpecLPDDR5 lpddr5(const Arch& a) {
    MS::MemSpecLPDDR5 s; arch(s, a); s.memarchitecturespec.per2BankOffset = 8;
    auto& t = s.memtimingspec; t.WCK2CK = 4; t.RAS = 10; t.RCD = 4; t.RCD_S = 4; t.RCD_L = 4; t.RBTP = 3; t.WL = 3; t.WR = 4; t.RPpb = 5; t.RFCpb = 12; t.RFCab = 25; t.REFI = 100;
    return s;
}
inline MS::MemSpecLPDDR6 lpddr6(const Arch& a) {
    MS::MemSpecLPDDR6 s; arch(s, a); s.memarchitecturespec.per2BankOffset = 8;
    auto& t = s.memtimingspec; t.WCK2CK = 2; t.RAS = 10; t.RCD_r = 4; t.RCD_w = 4; t.RBTP = 3; t.WL = 3; t.WR = 4; t.RPpb = 5; t.RFCdb = 12; t.RFCab = 25; t.REFI = 100;
    return s;
}
} // namespace raw
