// Stand-in for the external DRAMUtils dependency (see /verif/DESIGN.md). Generated by gen_stub.py.
#ifndef DRAMUTILS_STUB_MEMSPECLPDDR4_H
#define DRAMUTILS_STUB_MEMSPECLPDDR4_H
#include <cstdint>
#include <string>
#include <string_view>
#include <optional>
#include <DRAMUtils/util/json_utils.h>
namespace DRAMUtils::MemSpec {
enum class pasrModesType { PASR_0, PASR_1, PASR_2, PASR_3, PASR_4, PASR_5, PASR_6, PASR_7, Invalid = -1 };
#ifndef VP_NO_JSON
NLOHMANN_JSON_SERIALIZE_ENUM(pasrModesType, { {pasrModesType::Invalid, nullptr}, {pasrModesType::PASR_0, 0}, {pasrModesType::PASR_1, 1}, {pasrModesType::PASR_2, 2}, {pasrModesType::PASR_3, 3}, {pasrModesType::PASR_4, 4}, {pasrModesType::PASR_5, 5}, {pasrModesType::PASR_6, 6}, {pasrModesType::PASR_7, 7} })
#endif
struct MemArchitectureSpecTypeLPDDR4 {
    uint64_t nbrOfChannels{};
    uint64_t nbrOfColumns{};
    uint64_t nbrOfRows{};
    uint64_t width{};
    uint64_t burstLength{};
    uint64_t maxBurstLength{};
    uint64_t dataRate{};
    uint64_t nbrOfBankGroups{};
    uint64_t nbrOfBanks{};
    uint64_t nbrOfRanks{};
    uint64_t nbrOfDevices{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemArchitectureSpecTypeLPDDR4, nbrOfChannels, nbrOfColumns, nbrOfRows, width, burstLength, maxBurstLength, dataRate, nbrOfBankGroups, nbrOfBanks, nbrOfRanks, nbrOfDevices)
struct MemPowerSpecTypeLPDDR4 {
    double vdd1{};
    double idd01{};
    double idd2n1{};
    double idd3n1{};
    double idd4r1{};
    double idd4w1{};
    double idd51{};
    double idd5pb1{};
    double idd61{};
    double idd2p1{};
    double idd3p1{};
    double vdd2{};
    double idd02{};
    double idd2n2{};
    double idd3n2{};
    double idd4r2{};
    double idd4w2{};
    double idd52{};
    double idd5pb2{};
    double idd62{};
    double idd2p2{};
    double idd3p2{};
    double vddq{};
    std::optional<double> iBeta_vdd1{};
    std::optional<double> iBeta_vdd2{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemPowerSpecTypeLPDDR4, vdd1, idd01, idd2n1, idd3n1, idd4r1, idd4w1, idd51, idd5pb1, idd61, idd2p1, idd3p1, vdd2, idd02, idd2n2, idd3n2, idd4r2, idd4w2, idd52, idd5pb2, idd62, idd2p2, idd3p2, vddq, iBeta_vdd1, iBeta_vdd2)
struct MemTimingSpecTypeLPDDR4 {
    double tCK{};
    uint64_t CKE{};
    uint64_t ESCKE{};
    uint64_t CMDCKE{};
    uint64_t RAS{};
    uint64_t RCD{};
    uint64_t RL{};
    uint64_t REFM{};
    uint64_t REFI{};
    uint64_t REFIpb{};
    uint64_t RFCpb{};
    uint64_t RFCab{};
    uint64_t RPpb{};
    uint64_t RPab{};
    uint64_t RCpb{};
    uint64_t RCab{};
    uint64_t PPD{};
    uint64_t FAW{};
    uint64_t RRD{};
    uint64_t CCD{};
    uint64_t CCDMW{};
    uint64_t RPST{};
    uint64_t DQSCK{};
    uint64_t RTP{};
    uint64_t WL{};
    uint64_t DQSS{};
    uint64_t DQS2DQ{};
    uint64_t WR{};
    uint64_t WPRE{};
    uint64_t WTR{};
    uint64_t XP{};
    uint64_t SR{};
    uint64_t XSR{};
    uint64_t RTRS{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemTimingSpecTypeLPDDR4, tCK, CKE, ESCKE, CMDCKE, RAS, RCD, RL, REFM, REFI, REFIpb, RFCpb, RFCab, RPpb, RPab, RCpb, RCab, PPD, FAW, RRD, CCD, CCDMW, RPST, DQSCK, RTP, WL, DQSS, DQS2DQ, WR, WPRE, WTR, XP, SR, XSR, RTRS)
struct BankWiseSpecTypeLPDDR4 {
    std::optional<double> factRho{};
    std::optional<double> factSigma{};
    std::optional<pasrModesType> pasrMode{};
    std::optional<bool> hasPASR{};
};
NLOHMANN_JSONIFY_ALL_THINGS(BankWiseSpecTypeLPDDR4, factRho, factSigma, pasrMode, hasPASR)
struct MemImpedanceSpecTypeLPDDR4 {
    bool ck_termination{};
    double ck_R_eq{};
    double ck_dyn_E{};
    bool ca_termination{};
    double ca_R_eq{};
    double ca_dyn_E{};
    bool rdq_termination{};
    double rdq_R_eq{};
    double rdq_dyn_E{};
    bool wdq_termination{};
    double wdq_R_eq{};
    double wdq_dyn_E{};
    bool wdqs_termination{};
    double wdqs_R_eq{};
    double wdqs_dyn_E{};
    bool rdqs_termination{};
    double rdqs_R_eq{};
    double rdqs_dyn_E{};
    bool wdbi_termination{};
    double wdbi_R_eq{};
    double wdbi_dyn_E{};
    bool rdbi_termination{};
    double rdbi_R_eq{};
    double rdbi_dyn_E{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemImpedanceSpecTypeLPDDR4, ck_termination, ck_R_eq, ck_dyn_E, ca_termination, ca_R_eq, ca_dyn_E, rdq_termination, rdq_R_eq, rdq_dyn_E, wdq_termination, wdq_R_eq, wdq_dyn_E, wdqs_termination, wdqs_R_eq, wdqs_dyn_E, rdqs_termination, rdqs_R_eq, rdqs_dyn_E, wdbi_termination, wdbi_R_eq, wdbi_dyn_E, rdbi_termination, rdbi_R_eq, rdbi_dyn_E)
struct MemSpecLPDDR4 {
    static constexpr std::string_view id = "LPDDR4";
    std::string memoryId{};
    MemArchitectureSpecTypeLPDDR4 memarchitecturespec{};
    MemPowerSpecTypeLPDDR4 mempowerspec{};
    MemTimingSpecTypeLPDDR4 memtimingspec{};
    std::optional<BankWiseSpecTypeLPDDR4> bankwisespec{};
    MemImpedanceSpecTypeLPDDR4 memimpedancespec{};
};
NLOHMANN_JSONIFY_ALL_THINGS(MemSpecLPDDR4, memoryId, memarchitecturespec, mempowerspec, memtimingspec, bankwisespec, memimpedancespec)
} // namespace DRAMUtils::MemSpec
#endif
