// Stand-in for the external DRAMUtils dependency (see /verif/DESIGN.md). Generated by gen_stub.py.
#ifndef DRAMUTILS_STUB_JSON_UTILS_H
#define DRAMUTILS_STUB_JSON_UTILS_H
#include <optional>
#include <string>
#include <string_view>
#include <cstdint>
#include <DRAMUtils/util/json.h>
#ifndef VP_NO_JSON
namespace DRAMUtils::stub {
template <typename T> struct is_opt : std::false_type {};
template <typename T> struct is_opt<std::optional<T>> : std::true_type {};
template <typename T> inline void put(json_t& j, const char* k, const T& v) {
    if constexpr (is_opt<T>::value) { if (v.has_value()) j[k] = *v; }
    else j[k] = v;
}
template <typename T> inline void get(const json_t& j, const char* k, T& v) {
    if constexpr (is_opt<T>::value) {
        auto it = j.find(k);
        if (it != j.end() && !it->is_null()) v = it->template get<typename T::value_type>();
        else v.reset();
    } else v = j.at(k).template get<T>();
}
} // namespace DRAMUtils::stub
#define VP_DU_TO(x) DRAMUtils::stub::put(nlohmann_json_j, #x, nlohmann_json_t.x);
#define VP_DU_FROM(x) DRAMUtils::stub::get(nlohmann_json_j, #x, nlohmann_json_t.x);
#define NLOHMANN_JSONIFY_ALL_THINGS(Type, ...) \
    inline void to_json(json_t& nlohmann_json_j, const Type& nlohmann_json_t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(VP_DU_TO, __VA_ARGS__)) } \
    inline void from_json(const json_t& nlohmann_json_j, Type& nlohmann_json_t) { NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(VP_DU_FROM, __VA_ARGS__)) }
#else
#define NLOHMANN_JSONIFY_ALL_THINGS(Type, ...)
#endif
#endif
