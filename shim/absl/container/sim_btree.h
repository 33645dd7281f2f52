// Ordered containers: same interface subset and order as abseil's btrees.
#pragma once
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <type_traits>

namespace absl_sim {
template <typename K> struct DefaultLess {
  using T = std::conditional_t<std::is_same_v<K, std::string> || std::is_same_v<K, std::string_view>, std::less<>, std::less<K>>;
};
}  // namespace absl_sim
namespace absl {
template <typename K, typename L = typename absl_sim::DefaultLess<K>::T>
class btree_set : public std::set<K, L> {
 public:
  using Base = std::set<K, L>;
  using Base::Base;
};
template <typename K, typename L = typename absl_sim::DefaultLess<K>::T>
class btree_multiset : public std::multiset<K, L> {
 public:
  using Base = std::multiset<K, L>;
  using Base::Base;
};
template <typename K, typename V, typename L = typename absl_sim::DefaultLess<K>::T>
class btree_map : public std::map<K, V, L> {
 public:
  using Base = std::map<K, V, L>;
  using Base::Base;
  using Base::operator[];
  template <typename Q> auto operator[](const Q &q) -> std::enable_if_t<std::is_same_v<K, std::string> && std::is_convertible_v<const Q &, std::string_view> && !std::is_same_v<Q, K>, V &> {
    return Base::operator[](K(std::string_view(q)));
  }
};
template <typename K, typename V, typename L = typename absl_sim::DefaultLess<K>::T>
class btree_multimap : public std::multimap<K, V, L> {
 public:
  using Base = std::multimap<K, V, L>;
  using Base::Base;
};
template <typename K, typename L, typename P> size_t erase_if(btree_set<K, L> &s, P p) { return std::erase_if(static_cast<std::set<K, L> &>(s), p); }
template <typename K, typename V, typename L, typename P> size_t erase_if(btree_map<K, V, L> &s, P p) { return std::erase_if(static_cast<std::map<K, V, L> &>(s), p); }
}  // namespace absl
