#!/usr/bin/env python3
"""Generates the DRAMUtils stand-in headers (DRAMUtils is an external dependency of DRAMPower that is
not present in this sandbox).  Field names come from DRAMPower's own example memspecs
(/repo/tests/tests_drampower/resources/*.json); run by hand once, output is committed."""
import json, os, sys
R = sys.argv[1] if len(sys.argv) > 1 else '/repo/tests/tests_drampower/resources'
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'DRAMUtils')
os.makedirs(out + '/memspec/standards', exist_ok=True)
os.makedirs(out + '/config', exist_ok=True)
os.makedirs(out + '/util', exist_ok=True)
HDR = "// Stand-in for the external DRAMUtils dependency (see /verif/DESIGN.md). Generated by gen_stub.py.\n"

def w(p, s):
    open(os.path.join(out, p), 'w').write(HDR + s)

w('util/types.h', '''#ifndef DRAMUTILS_STUB_TYPES_H
#define DRAMUTILS_STUB_TYPES_H
#include <type_traits>
#include <cstddef>
#include <variant>
#include <vector>
#include <string>
#include <optional>
namespace DRAMUtils::util {
template <typename T> struct always_false : std::false_type {};
template <typename... Ts> struct type_sequence { static constexpr std::size_t size = sizeof...(Ts); };
template <typename T, typename Seq> struct is_one_of;
template <typename T, typename... Ts>
struct is_one_of<T, type_sequence<Ts...>> : std::disjunction<std::is_same<T, Ts>...> {};
template <typename... Ts> struct unique_types : std::true_type {};
template <typename T, typename... Ts>
struct unique_types<T, Ts...> : std::conjunction<std::negation<std::disjunction<std::is_same<T, Ts>...>>, unique_types<Ts...>> {};
} // namespace DRAMUtils::util
#endif
''')
w('util/json.h', '''#ifndef DRAMUTILS_STUB_JSON_H
#define DRAMUTILS_STUB_JSON_H
#ifndef VP_NO_JSON
#include <nlohmann/json.hpp>
using json_t = nlohmann::json;
#else
#include <cstddef>
// JSON output is outside the encoded part: a sink with the operations the sources mention.
#include <algorithm>
#include <array>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <numeric>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
namespace nlohmann {
struct json {
    json() = default;
    json(std::initializer_list<json>) {}
    template <typename T> json(const T&) {}
    template <typename K> json& operator[](const K&) { return *this; }
    template <typename K> json& at(const K&) { return *this; }
    static json array() { return {}; }
    static json object() { return {}; }
    template <typename T> void push_back(const T&) {}
    template <typename T> void emplace_back(const T&) {}
    bool is_array() const { return true; }
    std::size_t size() const { return 0; }
};
}
using json_t = nlohmann::json;
#endif
#endif
''')
w('util/json_utils.h', '''#ifndef DRAMUTILS_STUB_JSON_UTILS_H
#define DRAMUTILS_STUB_JSON_UTILS_H
#include <optional>
#include <string>
#include <string_view>
#include <cstdint>
#include <DRAMUtils/util/json.h>
#ifndef VP_NO_JSON
namespace DRAMUtils::stub {
template <typename T> struct is_opt : std::false_type {};
template <typename T> struct is_opt<std::optional<T>> : std::true_type {};
template <typename T> inline void put(json_t& j, const char* k, const T& v) {
    if constexpr (is_opt<T>::value) { if (v.has_value()) j[k] = *v; }
    else j[k] = v;
}
template <typename T> inline void get(const json_t& j, const char* k, T& v) {
    if constexpr (is_opt<T>::value) {
        auto it = j.find(k);
        if (it != j.end() && !it->is_null()) v = it->template get<typename T::value_type>();
        else v.reset();
    } else v = j.at(k).template get<T>();
}
} // namespace DRAMUtils::stub
#define VP_DU_TO(x) DRAMUtils::stub::put(nlohmann_json_j, #x, nlohmann_json_t.x);
#define VP_DU_FROM(x) DRAMUtils::stub::get(nlohmann_json_j, #x, nlohmann_json_t.x);
#define NLOHMANN_JSONIFY_ALL_THINGS(Type, ...) \\
    inline void to_json(json_t& nlohmann_json_j, const Type& nlohmann_json_t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(VP_DU_TO, __VA_ARGS__)) } \\
    inline void from_json(const json_t& nlohmann_json_j, Type& nlohmann_json_t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(VP_DU_FROM, __VA_ARGS__)) }
#else
#define NLOHMANN_JSONIFY_ALL_THINGS(Type, ...)
#endif
#endif
''')
w('config/toggling_rate.h', '''#ifndef DRAMUTILS_STUB_TOGGLING_RATE_H
#define DRAMUTILS_STUB_TOGGLING_RATE_H
#include <DRAMUtils/util/json_utils.h>
namespace DRAMUtils::Config {
enum class TogglingRateIdlePattern { L, H, Z, Invalid = -1 };
#ifndef VP_NO_JSON
NLOHMANN_JSON_SERIALIZE_ENUM(TogglingRateIdlePattern, {
    {TogglingRateIdlePattern::Invalid, nullptr},
    {TogglingRateIdlePattern::L, "L"},
    {TogglingRateIdlePattern::H, "H"},
    {TogglingRateIdlePattern::Z, "Z"},
})
#endif
struct ToggleRateDefinition {
    double togglingRateRead;
    double togglingRateWrite;
    double dutyCycleRead;
    double dutyCycleWrite;
    TogglingRateIdlePattern idlePatternRead;
    TogglingRateIdlePattern idlePatternWrite;
};
NLOHMANN_JSONIFY_ALL_THINGS(ToggleRateDefinition, togglingRateRead, togglingRateWrite, dutyCycleRead, dutyCycleWrite, idlePatternRead, idlePatternWrite)
} // namespace DRAMUtils::Config
#endif
''')
stds = ['DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6']
for s in stds:
    m = json.load(open(f'{R}/{s.lower()}.json'))['memspec']
    body = f'#ifndef DRAMUTILS_STUB_MEMSPEC{s}_H\n#define DRAMUTILS_STUB_MEMSPEC{s}_H\n#include <cstdint>\n#include <string>\n#include <string_view>\n#include <optional>\n#include <DRAMUtils/util/json_utils.h>\nnamespace DRAMUtils::MemSpec {{\n'
    if s in ('DDR4', 'DDR5'):
        modes = ['REF_MODE_1', 'REF_MODE_2'] + (['REF_MODE_4'] if s == 'DDR4' else [])
        body += f'enum class RefModeType{s} {{ ' + ', '.join(f'{x} = {x[-1]}' for x in modes) + ', INVALID = -1 };\n'
        body += f'#ifndef VP_NO_JSON\nNLOHMANN_JSON_SERIALIZE_ENUM(RefModeType{s}, {{ {{RefModeType{s}::INVALID, nullptr}}, ' + ', '.join(f'{{RefModeType{s}::{x}, {x[-1]}}}' for x in modes) + ' })\n#endif\n'
    if s == 'LPDDR4':
        body += 'enum class pasrModesType { ' + ', '.join(f'PASR_{i}' for i in range(8)) + ', Invalid = -1 };\n'
        body += '#ifndef VP_NO_JSON\nNLOHMANN_JSON_SERIALIZE_ENUM(pasrModesType, { {pasrModesType::Invalid, nullptr}, ' + ', '.join(f'{{pasrModesType::PASR_{i}, {i}}}' for i in range(8)) + ' })\n#endif\n'
    def struct(name, fields):
        r = f'struct {name} {{\n' + ''.join(f'    {t} {n}{{}};\n' for t, n in fields) + '};\n'
        # nlohmann's paste macro takes 63 names at most
        for i in range(0, len(fields), 60):
            pass
        names = [n for _, n in fields]
        if len(names) <= 60:
            r += f'NLOHMANN_JSONIFY_ALL_THINGS({name}, ' + ', '.join(names) + ')\n'
        else:
            r += '#ifndef VP_NO_JSON\n'
            r += f'inline void to_json(json_t& j, const {name}& t) {{\n' + ''.join(f'    DRAMUtils::stub::put(j, "{n}", t.{n});\n' for n in names) + '}\n'
            r += f'inline void from_json(const json_t& j, {name}& t) {{\n' + ''.join(f'    DRAMUtils::stub::get(j, "{n}", t.{n});\n' for n in names) + '}\n#endif\n'
        return r
    arch = []
    for k in m['memarchitecturespec']:
        t = 'uint64_t'
        if k == 'RefMode': t = f'RefModeType{s}'
        if k == 'WCKalwaysOn': t = 'bool'
        arch.append((t, k))
    body += struct(f'MemArchitectureSpecType{s}', arch)
    body += struct(f'MemPowerSpecType{s}', [('std::optional<double>' if k.startswith('iBeta') else 'double', k) for k in m['mempowerspec'] if not (s == 'LPDDR6' and k == 'vdd2l')])
    body += struct(f'MemTimingSpecType{s}', [('double' if k == 'tCK' else 'uint64_t', k) for k in m['memtimingspec']])
    bw = [('std::optional<double>', 'factRho')]
    if s == 'LPDDR4':
        bw += [('std::optional<double>', 'factSigma'), ('std::optional<pasrModesType>', 'pasrMode'), ('std::optional<bool>', 'hasPASR')]
    body += struct(f'BankWiseSpecType{s}', bw)
    body += struct(f'MemImpedanceSpecType{s}', [('bool' if k.endswith('termination') else 'double', k) for k in m['memimpedancespec']])
    top = [('std::string', 'memoryId'), (f'MemArchitectureSpecType{s}', 'memarchitecturespec'), (f'MemPowerSpecType{s}', 'mempowerspec'),
           (f'MemTimingSpecType{s}', 'memtimingspec'), (f'std::optional<BankWiseSpecType{s}>', 'bankwisespec'), (f'MemImpedanceSpecType{s}', 'memimpedancespec')]
    if 'prepostamble' in m:
        body += struct(f'MemPrePostambleType{s}', [('uint64_t' if ('_to_' in k or 'Tccd' in k) else 'double', k) for k in m['prepostamble']])
        top.append((f'MemPrePostambleType{s}', 'prepostamble'))
    if 'dataratespec' in m:
        body += struct(f'DataRateSpecType{s}', [('uint64_t', k) for k in m['dataratespec']])
        top.append((f'std::optional<DataRateSpecType{s}>', 'dataratespec'))
    body += struct(f'MemSpec{s}', top).replace(f'struct MemSpec{s} {{\n', f'struct MemSpec{s} {{\n    static constexpr std::string_view id = "{s}";\n')
    body += '} // namespace DRAMUtils::MemSpec\n#endif\n'
    w(f'memspec/standards/MemSpec{s}.h', body)
w('memspec/MemSpec.h', '''#ifndef DRAMUTILS_STUB_MEMSPEC_H
#define DRAMUTILS_STUB_MEMSPEC_H
#include <variant>
#include <optional>
#include <DRAMUtils/util/json_utils.h>
''' + ''.join(f'#include <DRAMUtils/memspec/standards/MemSpec{s}.h>\n' for s in stds) + '''#ifndef VP_NO_JSON
#include <filesystem>
#include <fstream>
#endif
namespace DRAMUtils::MemSpec {
class MemSpecVariant {
public:
    using Variant = std::variant<''' + ', '.join(f'MemSpec{s}' for s in stds) + '''>;
    MemSpecVariant() = default;
    MemSpecVariant(Variant v) : m_variant(std::move(v)) {}
    const Variant& getVariant() const { return m_variant; }
    Variant& getVariant() { return m_variant; }
    void setVariant(Variant v) { m_variant = std::move(v); }
private:
    Variant m_variant;
};
} // namespace DRAMUtils::MemSpec
#ifndef VP_NO_JSON
namespace DRAMUtils {
inline std::optional<MemSpec::MemSpecVariant> parse_memspec_from_file(const std::filesystem::path& path) {
    std::ifstream file(path);
    if (!file.is_open()) return std::nullopt;
    json_t j = json_t::parse(file, nullptr, false, true);
    if (j.is_discarded() || !j.contains("memspec")) return std::nullopt;
    const json_t& m = j.at("memspec");
    const std::string type = m.at("memoryType").get<std::string>();
''' + ''.join(f'    if (type == MemSpec::MemSpec{s}::id) return MemSpec::MemSpecVariant(MemSpec::MemSpecVariant::Variant(m.get<MemSpec::MemSpec{s}>()));\n' for s in stds) + '''    return std::nullopt;
}
} // namespace DRAMUtils
#endif
#endif
''')
