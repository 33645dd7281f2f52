// Hash containers whose iteration order is decided by the simulator's seed, as
// abseil's is by the address of the table.
#pragma once
#include <functional>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>

#include <cstdint>

extern "C" uint32_t sim_hash_seed();
namespace absl_sim {
inline size_t Scramble(size_t h) {
  uint64_t x = h + 0x9e3779b97f4a7c15ull * (sim_hash_seed() + 1);
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
template <typename T> constexpr bool kStr = std::is_convertible_v<const T &, std::string_view>;
template <typename T> struct Hash {
  using is_transparent = void;
  template <typename U> size_t operator()(const U &v) const {
    if constexpr (kStr<T>) {
      const std::string_view s(v);
      uint64_t h = 14695981039346656037ull;
      for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
      return Scramble(h);
    } else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
      return Scramble((size_t)v);
    } else if constexpr (std::is_pointer_v<T>) {
      return Scramble((size_t)(const void *)v);
    } else {
      return Scramble(std::hash<T>()(v));
    }
  }
};
template <typename T> struct Eq {
  using is_transparent = void;
  template <typename A, typename B> bool operator()(const A &a, const B &b) const {
    if constexpr (kStr<T>) return std::string_view(a) == std::string_view(b);
    else return a == b;
  }
};
}  // namespace absl_sim
namespace absl {
template <typename K, typename H = absl_sim::Hash<K>, typename E = absl_sim::Eq<K>>
class flat_hash_set : public std::unordered_set<K, H, E> {
 public:
  using Base = std::unordered_set<K, H, E>;
  using Base::Base;
  using Base::insert;
  template <typename Q> auto insert(const Q &q) -> std::enable_if_t<absl_sim::kStr<K> && absl_sim::kStr<Q> && !std::is_same_v<Q, K>, decltype(std::declval<Base &>().emplace(q))> {
    return this->emplace(q);
  }
};
template <typename K, typename V, typename H = absl_sim::Hash<K>, typename E = absl_sim::Eq<K>>
class flat_hash_map : public std::unordered_map<K, V, H, E> {
 public:
  using Base = std::unordered_map<K, V, H, E>;
  using Base::Base;
  using Base::operator[];
  template <typename Q> auto operator[](const Q &q) -> std::enable_if_t<absl_sim::kStr<K> && absl_sim::kStr<Q> && !std::is_same_v<Q, K>, V &> {
    return Base::operator[](K(q));
  }
};
template <typename K, typename H = absl_sim::Hash<K>, typename E = absl_sim::Eq<K>>
using node_hash_set = flat_hash_set<K, H, E>;
template <typename K, typename V, typename H = absl_sim::Hash<K>, typename E = absl_sim::Eq<K>>
using node_hash_map = flat_hash_map<K, V, H, E>;
}  // namespace absl
