// Stand-in for the external DRAMUtils dependency (see /verif/DESIGN.md). Generated by gen_stub.py.
#ifndef DRAMUTILS_STUB_MEMSPEC_H
#define DRAMUTILS_STUB_MEMSPEC_H
#include <variant>
#include <optional>
#include <DRAMUtils/util/json_utils.h>
#include <DRAMUtils/memspec/standards/MemSpecDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR6.h>
#ifndef VP_NO_JSON
#include <filesystem>
#include <fstream>
#endif
namespace DRAMUtils::MemSpec {
class MemSpecVariant {
public:
    using Variant = std::variant<MemSpecDDR4, MemSpecDDR5, MemSpecLPDDR4, MemSpecLPDDR5, MemSpecLPDDR6>;
    MemSpecVariant() = default;
    MemSpecVariant(Variant v) : m_variant(std::move(v)) {}
    const Variant& getVariant() const { return m_variant; }
    Variant& getVariant() { return m_variant; }
    void setVariant(Variant v) { m_variant = std::move(v); }
private:
    Variant m_variant;
};
} // namespace DRAMUtils::MemSpec
#ifndef VP_NO_JSON
namespace DRAMUtils {
inline std::optional<MemSpec::MemSpecVariant> parse_memspec_from_file(const std::filesystem::path& path) {
    std::ifstream file(path);
    if (!file.is_open()) return std::nullopt;
    json_t j = json_t::parse(file, nullptr, false, true);
    if (j.is_discarded() || !j.contains("memspec")) return std::nullopt;
    const json_t& m = j.at("memspec");
    const std::string type = m.at("memoryType").get<std::string>();
    if (type == MemSpec::MemSpecDDR4::id) return MemSpec::MemSpecVariant(MemSpec::MemSpecVariant::Variant(m.get<MemSpec::MemSpecDDR4>()));
    if (type == MemSpec::MemSpecDDR5::id) return MemSpec::MemSpecVariant(MemSpec::MemSpecVariant::Variant(m.get<MemSpec::MemSpecDDR5>()));
    if (type == MemSpec::MemSpecLPDDR4::id) return MemSpec::MemSpecVariant(MemSpec::MemSpecVariant::Variant(m.get<MemSpec::MemSpecLPDDR4>()));
    if (type == MemSpec::MemSpecLPDDR5::id) return MemSpec::MemSpecVariant(MemSpec::MemSpecVariant::Variant(m.get<MemSpec::MemSpecLPDDR5>()));
    if (type == MemSpec::MemSpecLPDDR6::id) return MemSpec::MemSpecVariant(MemSpec::MemSpecVariant::Variant(m.get<MemSpec::MemSpecLPDDR6>()));
    return std::nullopt;
}
} // namespace DRAMUtils
#endif
#endif
