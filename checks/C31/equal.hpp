// What == means, for anything.
#ifndef VERIF_EQUAL_HPP
#define VERIF_EQUAL_HPP
#include <functional>
#include "pbt.hpp"

namespace eq {
template <typename T> using Changes = std::vector<std::pair<std::string, std::function<void(T *)>>>;

template <typename T> bool same(const T &a, const T &b) { return a == b && b == a; }
template <typename T> bool differ(const T &a, const T &b) { return !(a == b) && !(b == a); }

// `again` was made in the same way as `a`, `other` is something else; `look`
// shows what can be seen of a value
template <typename T, typename Look>
void check(pbt::Case &c, const T &a, const T &again, const T &other, const Changes<T> &changes, Look look,
           const std::string &what) {
  const auto seen = look(a), seen_other = look(other);
  c.check(same(a, a), what + " equals itself");
  c.check(same(a, again), what + " equals one made in the same way");
  T copy(a);
  c.check(same(a, copy) && look(copy) == seen, what + " equals its copy");
  T assigned(other);
  c.check(same(other, assigned) && look(assigned) == seen_other, what + ": the other equals its copy");
  assigned = a;
  c.check(same(a, assigned) && look(assigned) == seen, what + " equals what it was assigned to");
  T moved(std::move(assigned));
  c.check(same(a, moved) && look(moved) == seen, what + " equals what it was moved to");
  assigned = std::move(moved);
  c.check(same(a, assigned), what + " equals what was moved back");
  // (assigning to itself)
  T &alias = copy;
  copy = alias;
  c.check(same(a, copy) && look(copy) == seen, what + " equals itself after assigning it to itself");
  for (const auto &change : changes) {
    T changed(a);
    change.second(&changed);
    c.check(differ(a, changed), what + " differs in " + change.first);
    c.check(same(a, copy) && look(a) == seen, what + " is not changed with its copy: " + change.first);
    T back(changed);
    c.check(same(back, changed), what + ": copy of the changed one: " + change.first);
    back = a;
    c.check(same(a, back) && look(back) == seen, what + " assigned to a changed one: " + change.first);
  }
}

struct Blind {
  template <typename T> int operator()(const T &) const { return 0; }
};

template <typename T>
void check(pbt::Case &c, const T &a, const T &again, const T &other, const Changes<T> &changes, const std::string &what) {
  check(c, a, again, other, changes, Blind(), what);
}
} // namespace eq
#endif
