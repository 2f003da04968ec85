// Stand-in for the external DRAMUtils dependency (see /verif/DESIGN.md). Generated by gen_stub.py.
#ifndef DRAMUTILS_STUB_TYPES_H
#define DRAMUTILS_STUB_TYPES_H
#include <type_traits>
#include <cstddef>
#include <variant>
#include <vector>
#include <string>
#include <optional>
namespace DRAMUtils::util {
template <typename T> struct always_false : std::false_type {};
template <typename... Ts> struct type_sequence { static constexpr std::size_t size = sizeof...(Ts); };
template <typename T, typename Seq> struct is_one_of;
template <typename T, typename... Ts>
struct is_one_of<T, type_sequence<Ts...>> : std::disjunction<std::is_same<T, Ts>...> {};
template <typename... Ts> struct unique_types : std::true_type {};
template <typename T, typename... Ts>
struct unique_types<T, Ts...> : std::conjunction<std::negation<std::disjunction<std::is_same<T, Ts>...>>, unique_types<Ts...>> {};
} // namespace DRAMUtils::util
#endif
