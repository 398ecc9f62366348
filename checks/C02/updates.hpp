#pragma once
#include "gpref.hpp"
using namespace gpref;

namespace c02 {
struct Split { // which datum goes into which batch, in which order
  std::vector<std::vector<std::size_t>> batches;
};

inline Split split(pbt::Case &c, std::size_t n, std::size_t parts) {
  Split s;
  const auto order = c.permutation(n);
  std::size_t at = 0;
  for (std::size_t k = 0; k < parts; ++k) {
    const std::size_t left = parts - k - 1;
    const std::size_t count = left == 0 ? n - at : 1 + c.src.draw(n - at - left - 1);
    s.batches.emplace_back(order.begin() + static_cast<long>(at),
                           order.begin() + static_cast<long>(at + count));
    at += count;
  }
  return s;
}

template <typename F, typename Model> void updates(pbt::Case &c, Model model) {
  randomize(c, &model);
  const std::size_t parts = 2 + c.src.draw(1);
  const std::size_t n = parts + c.usually(0, 10, 60);
  const RegressionDataset<F> all(features<F>(c, n), any_targets(c, n));
  const auto s = split(c, n, parts);
  show(c, "features", all.features);
  c.show("targets", all.targets.mean.transpose());
  c.show("noise", all.targets.covariance.diagonal().transpose());
  for (const auto &b : s.batches)
    c.showv("batch", b);
  const auto given = observe(model, all.features, all.targets);
  c.assume(given.cond < 1e7);

  auto test = features<F>(c, c.size(1, 4));
  for (auto &t : test)
    if (c.chance(1, 3))
      t = c.pick(all.features);
  const auto meas = as_measurements(test);
  show(c, "test", test);
  const auto want = predict(model, given, all.features, test);
  const auto want_meas = predict(model, given, all.features, meas);

  std::vector<RegressionDataset<F>> data;
  for (const auto &b : s.batches)
    data.push_back(subset(all, b));

  const auto first = model.fit(data[0]);
  const auto given_first = observe(model, data[0].features, data[0].targets);
  const auto want_first = predict(model, given_first, data[0].features, test);
  check_prediction(c, first.predict(test), want_first, "before the update");
  const double slack = 50;
  const auto second = c.coin() ? first.update(data[1]) : update(first, data[1]);
  if (parts == 2) {
    check_prediction(c, second.predict(test), want, "updated", slack);
    check_prediction(c, second.predict(meas), want_meas, "updated, measurements", slack);
    check_prediction(c, first.update(data[1].features, data[1].targets).predict(test), want, "updated by vectors", slack);
  } else {
    const auto third = second.update(data[2]);
    check_prediction(c, third.predict(test), want, "updated twice", slack);
    check_prediction(c, third.predict(meas), want_meas, "updated twice, measurements", slack);
    // fewer, larger batches
    const auto both = concatenate_datasets(data[1], data[2]);
    check_prediction(c, first.update(both).predict(test), want, "one larger update", slack);
    check_prediction(c, model.fit(concatenate_datasets(data[0], data[1])).update(data[2]).predict(test), want,
                     "one larger fit", slack);
  }
  // the order does not matter, and neither does the batch which comes first
  check_prediction(c, model.fit(data[1]).update(parts == 2 ? data[0] : concatenate_datasets(data[2], data[0])).predict(test),
                   want, "other order", slack);
  std::vector<std::size_t> order;
  for (const auto &b : s.batches)
    order.insert(order.end(), b.begin(), b.end());
  check_prediction(c, model.fit(subset(all, order)).predict(test), want, "reordered fit", slack);
  // nothing else changed
  check_prediction(c, first.predict(test), want_first, "after the update");
  double changed = 0;
  for (Eigen::Index i = 0; i < want.mean.size(); ++i)
    changed = std::max(changed, static_cast<double>(fabsl(want.mean[i] - want_first.mean[i])));
  c.nontrivial(n > 2 && changed > 1e-2);
  c.label_if(parts == 3, "two updates");
}
} // namespace c02
