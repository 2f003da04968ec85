// Stand-in for the external DRAMUtils dependency (see /verif/DESIGN.md). Generated by gen_stub.py.
#ifndef DRAMUTILS_STUB_JSON_H
#define DRAMUTILS_STUB_JSON_H
#ifndef VP_NO_JSON
#include <nlohmann/json.hpp>
using json_t = nlohmann::json;
#else
#include <cstddef>
// JSON output is outside the encoded part: a sink with the operations the sources mention.
#include <algorithm>
#include <array>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <numeric>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
namespace nlohmann {
struct json {
    json() = default;
    json(std::initializer_list<json>) {}
    template <typename T> json(const T&) {}
    template <typename K> json& operator[](const K&) { return *this; }
    template <typename K> json& at(const K&) { return *this; }
    static json array() { return {}; }
    static json object() { return {}; }
    template <typename T> void push_back(const T&) {}
    template <typename T> void emplace_back(const T&) {}
    bool is_array() const { return true; }
    std::size_t size() const { return 0; }
};
}
using json_t = nlohmann::json;
#endif
#endif
