// Generated partitions of a dataset, kept as plain lists of indices.
#ifndef VERIF_C04_FOLDS_HPP
#define VERIF_C04_FOLDS_HPP
#include "gpref.hpp"

namespace c04 {
using namespace gpref;

template <typename Key> Key make_key(long k);
template <> inline int make_key<int>(long k) { return static_cast<int>(k); }
template <> inline std::string make_key<std::string>(long k) {
  static const char *names[] = {"m", "a", "z", "b", "", "k", "10", "9", "aa", "c"};
  return names[k % 10];
}
template <> inline bool make_key<bool>(long k) { return k % 2 == 1; }

// the group of every datum
template <typename Key>
std::vector<Key> keys(pbt::Case &c, std::size_t n, long most) {
  std::vector<Key> out;
  const bool blocks = c.chance(1, 4);
  long at = 0;
  for (std::size_t i = 0; i < n; ++i) {
    if (blocks)
      at = c.chance(1, 3) ? at + 1 : at;
    else
      at = c.i(0, most - 1);
    out.push_back(make_key<Key>(at));
  }
  return out;
}

template <typename Key>
std::map<Key, GroupIndices> indices_of(const std::vector<Key> &keys) {
  std::map<Key, GroupIndices> out;
  for (std::size_t i = 0; i < keys.size(); ++i)
    out[keys[i]].push_back(i);
  return out;
}

inline GroupIndices others(const GroupIndices &held, std::size_t n) {
  GroupIndices out;
  for (std::size_t i = 0; i < n; ++i) {
    bool in = false;
    for (const std::size_t h : held)
      in = in || h == i;
    if (!in)
      out.push_back(i);
  }
  return out;
}

template <typename T>
std::vector<T> take(const std::vector<T> &x, const GroupIndices &which) {
  std::vector<T> out;
  for (const std::size_t i : which)
    out.push_back(x[i]);
  return out;
}

inline MarginalDistribution take(const MarginalDistribution &x,
                                 const GroupIndices &which) {
  Eigen::VectorXd mean(static_cast<Eigen::Index>(which.size())),
      var(static_cast<Eigen::Index>(which.size()));
  for (std::size_t k = 0; k < which.size(); ++k) {
    mean[static_cast<Eigen::Index>(k)] = x.mean[static_cast<Eigen::Index>(which[k])];
    var[static_cast<Eigen::Index>(k)] =
        x.covariance.diagonal()[static_cast<Eigen::Index>(which[k])];
  }
  return MarginalDistribution(mean, var);
}

inline std::string text(const GroupIndices &x) {
  std::string out;
  for (const auto i : x)
    out += std::to_string(i) + " ";
  return out;
}

} // namespace c04
#endif
