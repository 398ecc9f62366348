// pbt:
#include "folds.hpp"
#include <albatross/LeastSquares>
#include <albatross/NullModel>
using namespace c04;

// A model whose predictions are a fingerprint of what it was fitted on.
namespace albatross {
class Memory;
template <> struct Fit<Memory> {
  double seen = 0;
  std::size_t count = 0;
};

inline double scramble(double x) {
  const double y = std::sin(x * 12.9898 + 78.233) * 43758.5453;
  return y - std::floor(y);
}

class Memory : public ModelBase<Memory> {
public:
  std::string get_name() const { return "memory"; }

  static double mark(double feature, double mean, double variance) {
    return std::floor(1e6 * scramble(feature + 3 * scramble(mean + 5 * scramble(variance))));
  }
  static double mean_of(double feature, double seen) {
    return scramble(feature + scramble(seen / 1e6));
  }
  static double cov_of(double a, double b, double seen) {
    return scramble(a + scramble(seen / 1e6 + 1)) * scramble(b + scramble(seen / 1e6 + 1)) +
           (a == b ? 1. : 0.);
  }

  Fit<Memory> _fit_impl(const std::vector<double> &features,
                        const MarginalDistribution &targets) const {
    Fit<Memory> fit;
    for (std::size_t i = 0; i < features.size(); ++i) {
      const Eigen::Index k = static_cast<Eigen::Index>(i);
      fit.seen += mark(features[i], targets.mean[k], targets.covariance.diagonal()[k]);
    }
    fit.count = features.size();
    return fit;
  }

  Eigen::VectorXd _predict_impl(const std::vector<double> &features, const Fit<Memory> &fit,
                                PredictTypeIdentity<Eigen::VectorXd> &&) const {
    Eigen::VectorXd out(static_cast<Eigen::Index>(features.size()));
    for (std::size_t i = 0; i < features.size(); ++i)
      out[static_cast<Eigen::Index>(i)] = mean_of(features[i], fit.seen);
    return out;
  }
  JointDistribution _predict_impl(const std::vector<double> &features, const Fit<Memory> &fit,
                                  PredictTypeIdentity<JointDistribution> &&) const {
    const Eigen::Index n = static_cast<Eigen::Index>(features.size());
    Eigen::MatrixXd cov(n, n);
    for (Eigen::Index i = 0; i < n; ++i)
      for (Eigen::Index j = 0; j < n; ++j)
        cov(i, j) = cov_of(features[static_cast<std::size_t>(i)], features[static_cast<std::size_t>(j)], fit.seen);
    return JointDistribution(_predict_impl(features, fit, PredictTypeIdentity<Eigen::VectorXd>()), cov);
  }
  MarginalDistribution _predict_impl(const std::vector<double> &features, const Fit<Memory> &fit,
                                     PredictTypeIdentity<MarginalDistribution> &&) const {
    const JointDistribution joint = _predict_impl(features, fit, PredictTypeIdentity<JointDistribution>());
    return MarginalDistribution(joint.mean, joint.covariance.diagonal());
  }
};
} // namespace albatross

namespace {

struct Setup {
  std::vector<double> features;
  MarginalDistribution targets;
  RegressionDataset<double> dataset;
};

Setup setup(pbt::Case &c, std::size_t least, std::size_t most) {
  Setup s;
  const std::size_t n = c.usually(least, most, 10 * most);
  for (std::size_t i = 0; i < n; ++i) // distinct, in any order
    s.features.push_back(static_cast<double>(i) + 0.25 * c.real(0, 1));
  c.shuffle(s.features);
  s.targets = any_targets(c, n);
  s.dataset = RegressionDataset<double>(s.features, s.targets);
  c.showv("features", s.features).show("targets", s.targets.mean.transpose());
  return s;
}

void same(pbt::Case &c, const MarginalDistribution &a, const MarginalDistribution &b, const std::string &what) {
  c.check(a.mean.size() == b.mean.size(), what + ": size");
  c.check(a.mean == b.mean && Eigen::VectorXd(a.covariance.diagonal()) == Eigen::VectorXd(b.covariance.diagonal()), what);
}

// what the model says about one fold
struct Fold {
  Eigen::VectorXd mean;
  Eigen::MatrixXd cov;
};
Fold remembered(const Setup &s, const GroupIndices &held) {
  double seen = 0;
  for (const std::size_t i : others(held, s.features.size())) {
    const Eigen::Index k = static_cast<Eigen::Index>(i);
    seen += Memory::mark(s.features[i], s.targets.mean[k], s.targets.covariance.diagonal()[k]);
  }
  const Eigen::Index m = static_cast<Eigen::Index>(held.size());
  Fold f{Eigen::VectorXd(m), Eigen::MatrixXd(m, m)};
  for (Eigen::Index i = 0; i < m; ++i) {
    const double x = s.features[held[static_cast<std::size_t>(i)]];
    f.mean[i] = Memory::mean_of(x, seen);
    for (Eigen::Index j = 0; j < m; ++j)
      f.cov(i, j) = Memory::cov_of(x, s.features[held[static_cast<std::size_t>(j)]], seen);
  }
  return f;
}

struct MeanError : public PredictionMetric<Eigen::VectorXd> {
  MeanError() : PredictionMetric<Eigen::VectorXd>(eval) {}
  static double eval(const Eigen::VectorXd &p, const MarginalDistribution &t) {
    double x = 0;
    for (Eigen::Index i = 0; i < p.size(); ++i)
      x += static_cast<double>(i + 1) * (p[i] - t.mean[i]) + t.covariance.diagonal()[i];
    return x;
  }
};
struct MarginalError : public PredictionMetric<MarginalDistribution> {
  MarginalError() : PredictionMetric<MarginalDistribution>(eval) {}
  static double eval(const MarginalDistribution &p, const MarginalDistribution &t) {
    double x = MeanError::eval(p.mean, t);
    for (Eigen::Index i = 0; i < p.mean.size(); ++i)
      x += static_cast<double>(i + 1) * p.covariance.diagonal()[i];
    return x;
  }
};
struct JointError : public PredictionMetric<JointDistribution> {
  JointError() : PredictionMetric<JointDistribution>(eval) {}
  static double eval(const JointDistribution &p, const MarginalDistribution &t) {
    double x = MeanError::eval(p.mean, t);
    for (Eigen::Index i = 0; i < p.mean.size(); ++i)
      for (Eigen::Index j = 0; j < p.mean.size(); ++j)
        x += static_cast<double>(i + 2 * j + 1) * p.covariance(i, j);
    return x;
  }
};

template <typename Key> void memory_case(pbt::Case &c) {
  const Setup s = setup(c, 1, 12);
  const std::size_t n = s.features.size();
  const auto key_of = keys<Key>(c, n, 5);
  c.showv("groups", key_of);
  const auto groups = indices_of(key_of);
  const auto grouper = [&](const double &x) {
    for (std::size_t i = 0; i < n; ++i)
      if (s.features[i] == x)
        return key_of[i];
    return key_of[0];
  };
  GroupIndexer<Key> indexer;
  for (const auto &g : groups)
    indexer[g.first] = g.second;
  // an indexer may list the members of a group in any order
  std::map<Key, GroupIndices> shuffled = groups;
  GroupIndexer<Key> shuffled_indexer;
  for (auto &g : shuffled) {
    c.shuffle(g.second);
    shuffled_indexer[g.first] = g.second;
  }
  c.nontrivial(groups.size() > 1);
  c.label_if(groups.size() == n && n > 1, "all singletons");
  const Memory model;
  const auto cv = model.cross_validate();

  const auto check = [&](const auto &prediction, const std::map<Key, GroupIndices> &by, const std::string &how) {
    Eigen::VectorXd mean(static_cast<Eigen::Index>(n)), var(static_cast<Eigen::Index>(n));
    const auto means = prediction.means();
    const auto marginals = prediction.marginals();
    const auto joints = prediction.joints();
    const auto lazily = prediction.predictions();
    c.eq(means.size(), by.size(), how + " number of means");
    c.eq(marginals.size(), by.size(), how + " number of marginals");
    c.eq(joints.size(), by.size(), how + " number of joints");
    c.eq(lazily.size(), by.size(), how + " number of predictions");
    for (const auto &g : by) {
      const Fold f = remembered(s, g.second);
      const std::string what = how + " group " + text(g.second);
      c.check(means.at(g.first) == f.mean, what + "means");
      c.check(marginals.at(g.first).mean == f.mean, what + "marginal means");
      c.check(Eigen::VectorXd(marginals.at(g.first).covariance.diagonal()) == Eigen::VectorXd(f.cov.diagonal()), what + "marginal variances");
      c.check(joints.at(g.first).mean == f.mean, what + "joint means");
      c.check(joints.at(g.first).covariance == f.cov, what + "joint covariances");
      c.check(lazily.at(g.first).mean() == f.mean, what + "prediction mean");
      c.check(lazily.at(g.first).joint().covariance == f.cov, what + "prediction covariance");
      for (std::size_t k = 0; k < g.second.size(); ++k) {
        mean[static_cast<Eigen::Index>(g.second[k])] = f.mean[static_cast<Eigen::Index>(k)];
        var[static_cast<Eigen::Index>(g.second[k])] = f.cov(static_cast<Eigen::Index>(k), static_cast<Eigen::Index>(k));
      }
    }
    using Joints = std::map<Key, JointDistribution>;
    const Joints as_map = prediction.template get<Joints>();
    c.eq(as_map.size(), by.size(), how + " size of a map");
    for (const auto &g : by) {
      c.check(as_map.at(g.first) == joints.at(g.first), how + " map of joints");
      c.check(prediction.template get<Grouped<Key, JointDistribution>>().at(g.first) == joints.at(g.first), how + " joints");
      c.check(prediction.template get<std::map<Key, Eigen::VectorXd>>().at(g.first) == means.at(g.first), how + " map of means");
      c.check(prediction.template get<Grouped<Key, Eigen::VectorXd>>().at(g.first) == means.at(g.first), how + " means");
      c.check(prediction.template get<std::map<Key, MarginalDistribution>>().at(g.first) == marginals.at(g.first), how + " map of marginals");
      c.check(prediction.template get<Grouped<Key, MarginalDistribution>>().at(g.first) == marginals.at(g.first), how + " marginals");
    }
    c.check(prediction.mean() == mean, how + " mean in the order of the dataset");
    same(c, prediction.marginal(), MarginalDistribution(mean, var), how + " marginal in the order of the dataset");
    c.check(prediction.template get<Eigen::VectorXd>() == mean, how + " get of the mean");
    same(c, prediction.template get<MarginalDistribution>(), MarginalDistribution(mean, var), how + " get of the marginal");
  };
  check(cv.predict(s.dataset, indexer), groups, "indexer");
  check(cv.predict(s.dataset, shuffled_indexer), shuffled, "shuffled indexer");
  check(cv.predict(s.dataset, grouper), groups, "grouper");

  // folds
  const auto folds = folds_from_grouper(s.dataset, grouper);
  const auto folds2 = folds_from_group_indexer(s.dataset, shuffled_indexer);
  const auto check_folds = [&](const auto &fs, const std::map<Key, GroupIndices> &by, const std::string &how) {
    c.eq(fs.size(), by.size(), how + " number of folds");
    for (const auto &g : by) {
      const auto &fold = fs.at(g.first);
      c.check(fold.test_indices == g.second, how + " test indices");
      c.check(fold.test_dataset.features == take(s.features, g.second), how + " test features");
      same(c, fold.test_dataset.targets, take(s.targets, g.second), how + " test targets");
      // the training data, in any order
      const auto rest = others(g.second, n);
      c.eq(fold.train_dataset.features.size(), rest.size(), how + " training size");
      c.eq(fold.train_dataset.targets.size(), rest.size(), how + " training targets");
      for (const std::size_t i : rest) {
        std::size_t at = 0;
        while (at < rest.size() && fold.train_dataset.features[at] != s.features[i])
          ++at;
        c.check(at < rest.size(), how + ": a datum is missing from the training data");
        c.check(fold.train_dataset.targets.mean[static_cast<Eigen::Index>(at)] == s.targets.mean[static_cast<Eigen::Index>(i)] &&
                    fold.train_dataset.targets.covariance.diagonal()[static_cast<Eigen::Index>(at)] == s.targets.covariance.diagonal()[static_cast<Eigen::Index>(i)],
                how + ": training target of another feature");
      }
    }
    c.eq(dataset_size_from_folds(fs), n, how + " size of the dataset");
  };
  check_folds(folds, groups, "folds of a grouper");
  check_folds(folds2, shuffled, "folds of an indexer");
  c.eq(dataset_size_from_indexer(shuffled_indexer), n, "size of the indexed dataset");
  std::set<std::size_t> all;
  for (std::size_t i = 0; i < n; ++i)
    all.insert(i);
  c.check(unique_indices(shuffled_indexer) == all, "unique indices");
  const auto back = group_indexer_from_folds(folds2.get_map());
  c.eq(back.size(), shuffled.size(), "groups of the folds");
  for (const auto &g : shuffled)
    c.check(back.at(g.first) == g.second, "indices of the folds");

  // predictions and scores
  const auto from_folds = cv.predictions(folds2);
  const auto from_grouper = cv.predictions(s.dataset, grouper);
  const auto from_model = get_predictions(model, folds2);
  c.eq(from_folds.size(), groups.size(), "number of predictions from folds");
  Eigen::VectorXd scores[3], again(static_cast<Eigen::Index>(groups.size()));
  for (auto &x : scores)
    x.resize(static_cast<Eigen::Index>(groups.size()));
  Eigen::Index at = 0;
  for (const auto &g : shuffled) {
    const Fold f = remembered(s, g.second);
    c.check(from_folds.at(g.first).mean() == f.mean, "prediction of a fold");
    c.check(from_model.at(g.first).joint().covariance == f.cov, "prediction of a model");
    c.check(from_grouper.at(g.first).mean() == remembered(s, groups.at(g.first)).mean, "prediction of a group");
    const auto truth = take(s.targets, g.second);
    scores[0][at] = MeanError::eval(f.mean, truth);
    scores[1][at] = MarginalError::eval(MarginalDistribution(f.mean, f.cov.diagonal()), truth);
    scores[2][at] = JointError::eval(JointDistribution(f.mean, f.cov), truth);
    ++at;
  }
  c.check(cv.scores(MeanError(), folds2) == scores[0], "scores of the means of folds");
  c.check(cv.scores(MarginalError(), folds2) == scores[1], "scores of the marginals of folds");
  c.check(cv.scores(JointError(), folds2) == scores[2], "scores of the joints of folds");
  c.check(cv.scores(JointError(), s.dataset, shuffled_indexer) == scores[2], "scores of the joints of an indexer");
  c.check(cv.scores(MeanError(), s.dataset, shuffled_indexer) == scores[0], "scores of the means of an indexer");
  c.check(cv.scores(MarginalError(), s.dataset, shuffled_indexer) == scores[1], "scores of the marginals of an indexer");
  at = 0;
  for (const auto &g : groups)
    again[at++] = MeanError::eval(remembered(s, g.second).mean, take(s.targets, g.second));
  c.check(cv.scores(MeanError(), s.dataset, grouper) == again, "scores of the means of a grouper");
}
} // namespace

PBT_CHECK(what_a_fold_sees, 36000, 300000,
          "cross validation of a model whose predictions are a fingerprint of "
          "its training data (feature, mean and variance of each datum) on "
          "1..12 data with groups of int, string and bool keys in any order "
          "(contiguous, interleaved, singletons, one group, members in any "
          "order): means, marginals, joints, predictions, folds and scores, "
          "bit for bit against plain loops; non-trivial: > 1 group.") {
  switch (c.i(0, 2)) {
  case 0:
    return memory_case<int>(c);
  case 1:
    return memory_case<std::string>(c);
  default:
    return memory_case<bool>(c);
  }
}

PBT_CHECK(built_in_groupers, 18000, 200000,
          "leave one out and k-fold cross validation (k up to the number of "
          "data) of the same model on 2..12 data: the groups partition the "
          "data, with one datum each for leave one out, and each prediction "
          "is that of the other groups; non-trivial: > 2 data.") {
  const Setup s = setup(c, 2, 12);
  const std::size_t n = s.features.size();
  const Memory model;
  const auto cv = model.cross_validate();
  c.nontrivial(n > 2);
  const auto check = [&](const auto &grouper, const std::string &how, std::size_t expected) {
    const auto indexer = group_by(s.dataset, grouper).indexers();
    std::vector<int> times(n, 0);
    Eigen::VectorXd mean(static_cast<Eigen::Index>(n));
    for (const auto &g : indexer) {
      const Fold f = remembered(s, g.second);
      for (std::size_t k = 0; k < g.second.size(); ++k) {
        c.check(g.second[k] < n, how + ": index out of range");
        times[g.second[k]]++;
        mean[static_cast<Eigen::Index>(g.second[k])] = f.mean[static_cast<Eigen::Index>(k)];
      }
    }
    for (const int t : times)
      c.eq(t, 1, how + ": times an index is held out");
    c.eq(indexer.size(), expected, how + " number of groups");
    const auto prediction = cv.predict(s.dataset, grouper);
    c.check(prediction.mean() == mean, how + " mean");
    c.check(prediction.marginal().mean == mean, how + " marginal mean");
    c.eq(cv.scores(MarginalError(), s.dataset, grouper).size(), static_cast<Eigen::Index>(expected), how + " number of scores");
  };
  check(LeaveOneOutGrouper(), "leave one out", n);
  const std::size_t k = static_cast<std::size_t>(c.i(2, static_cast<long>(n)));
  c.show("k", k);
  check(KFoldGrouper(k), "k-fold", k);
}

PBT_CHECK(bad_partitions, 1000, 10000,
          "sets of groups which miss an index, hold one twice or skip the "
          "first one cannot be assembled in the order of a dataset and are "
          "rejected; non-trivial: always.") {
  const Setup s = setup(c, 2, 8);
  const std::size_t n = s.features.size();
  GroupIndexer<int> indexer;
  std::map<int, GroupIndices> groups;
  for (std::size_t i = 0; i < n; ++i)
    groups[static_cast<int>(c.i(0, 2))].push_back(i);
  const std::size_t victim = static_cast<std::size_t>(c.i(0, static_cast<long>(n) - 1));
  const int how = static_cast<int>(c.i(0, 1));
  bool last = true; // missing the last index looks like a smaller dataset
  if (how == 0) {
    for (auto &g : groups)
      for (std::size_t k = 0; k < g.second.size(); ++k)
        if (g.second[k] == victim) {
          g.second.erase(g.second.begin() + static_cast<long>(k));
          break;
        }
    last = victim + 1 == n;
  } else {
    groups[static_cast<int>(c.i(0, 3))].push_back(victim);
    last = false;
  }
  c.assume(!last);
  std::map<int, Eigen::VectorXd> means;
  for (const auto &g : groups) {
    indexer[g.first] = g.second;
    means[g.first] = Eigen::VectorXd::Zero(static_cast<Eigen::Index>(g.second.size()));
    c.show("group", text(g.second));
  }
  c.nontrivial(true);
  c.check(pbt::rejects([&]() { dataset_size_from_indexer(indexer); }), "a size was found for a broken partition");
  c.check(pbt::rejects([&]() {
    concatenate_mean_predictions(indexer, Grouped<int, Eigen::VectorXd>(means));
  }), "predictions of a broken partition were assembled");
}

PBT_CHECK(simple_models, 18000, 200000,
          "cross validated linear regression (3..12 distinct features, equal "
          "variances, at least 3 data outside of each group) against a closed "
          "form refit in long double, and the null model's prior; "
          "non-trivial: > 1 group.") {
  Setup s = setup(c, 4, 12);
  const std::size_t n = s.features.size();
  s.targets = MarginalDistribution(s.targets.mean);
  s.dataset = RegressionDataset<double>(s.features, s.targets);
  const auto key_of = keys<int>(c, n, 4);
  const auto groups = indices_of(key_of);
  for (const auto &g : groups)
    c.assume(n - g.second.size() >= 3);
  GroupIndexer<int> indexer;
  for (const auto &g : groups)
    indexer[g.first] = g.second;
  c.nontrivial(groups.size() > 1);
  const LinearRegression linear;
  const auto prediction = linear.cross_validate().predict(s.dataset, indexer);
  const auto means = prediction.means();
  const Eigen::VectorXd mean = prediction.mean();
  const Eigen::VectorXd rmse = linear.cross_validate().scores(RootMeanSquareError(), s.dataset, indexer);
  Eigen::Index at = 0;
  for (const auto &g : groups) {
    LD sx = 0, sy = 0, sxx = 0, sxy = 0, m = 0;
    for (const std::size_t i : others(g.second, n)) {
      m += 1;
      sx += s.features[i];
      sy += s.targets.mean[static_cast<Eigen::Index>(i)];
    }
    for (const std::size_t i : others(g.second, n)) {
      sxx += (s.features[i] - sx / m) * (s.features[i] - sx / m);
      sxy += (s.features[i] - sx / m) * (s.targets.mean[static_cast<Eigen::Index>(i)] - sy / m);
    }
    LD error = 0;
    for (std::size_t k = 0; k < g.second.size(); ++k) {
      const LD want = sy / m + sxy / sxx * (s.features[g.second[k]] - sx / m);
      const LD d = want - s.targets.mean[static_cast<Eigen::Index>(g.second[k])];
      error += d * d / static_cast<LD>(g.second.size());
      c.near(means.at(g.first)[static_cast<Eigen::Index>(k)], static_cast<double>(want), 1e-9, 1e-8, "regression of a group");
      c.near(mean[static_cast<Eigen::Index>(g.second[k])], static_cast<double>(want), 1e-9, 1e-8, "regression in order");
    }
    c.near(rmse[at++], static_cast<double>(sqrtl(error)), 1e-8, 1e-8, "rmse of a group");
  }
  const NullModel null;
  const auto nothing = null.cross_validate().predict(s.dataset, indexer);
  const auto joints = nothing.joints();
  for (const auto &g : groups) {
    const Eigen::Index m = static_cast<Eigen::Index>(g.second.size());
    c.check(joints.at(g.first).mean == Eigen::VectorXd::Zero(m), "mean of the null model");
    c.check(joints.at(g.first).covariance == 1e4 * Eigen::MatrixXd::Identity(m, m), "covariance of the null model");
  }
  c.check(nothing.mean() == Eigen::VectorXd::Zero(static_cast<Eigen::Index>(n)), "means of the null model");
  c.check(Eigen::VectorXd(nothing.marginal().covariance.diagonal()) == Eigen::VectorXd::Constant(static_cast<Eigen::Index>(n), 1e4), "variances of the null model");
}
