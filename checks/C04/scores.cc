// pbt:
#include "folds.hpp"
using namespace c04;

// Predictions which are already there (no model): their scores by group, and
// their values in the order of the dataset.
namespace {

double weighted(const Eigen::VectorXd &p, const Eigen::MatrixXd &cov, const MarginalDistribution &t) {
  double x = 0;
  for (Eigen::Index i = 0; i < p.size(); ++i) {
    x += static_cast<double>(i + 1) * (p[i] - t.mean[i]) + 3 * t.covariance.diagonal()[i];
    for (Eigen::Index j = 0; j < cov.cols(); ++j)
      x += static_cast<double>(2 * i + j + 1) * cov(i, j);
  }
  return x;
}
struct OfMean : public PredictionMetric<Eigen::VectorXd> {
  OfMean() : PredictionMetric<Eigen::VectorXd>(eval) {}
  static double eval(const Eigen::VectorXd &p, const MarginalDistribution &t) {
    return weighted(p, Eigen::MatrixXd(), t);
  }
};
struct OfMarginal : public PredictionMetric<MarginalDistribution> {
  OfMarginal() : PredictionMetric<MarginalDistribution>(eval) {}
  static double eval(const MarginalDistribution &p, const MarginalDistribution &t) {
    return weighted(p.mean, Eigen::MatrixXd(p.covariance.diagonal()), t);
  }
};
struct OfJoint : public PredictionMetric<JointDistribution> {
  OfJoint() : PredictionMetric<JointDistribution>(eval) {}
  static double eval(const JointDistribution &p, const MarginalDistribution &t) {
    return weighted(p.mean, p.covariance, t);
  }
};

template <typename Key> void scores_case(pbt::Case &c) {
  const std::size_t n = c.usually(1, 9, 60);
  std::vector<double> features;
  for (std::size_t i = 0; i < n; ++i)
    features.push_back(c.sym(5));
  const auto targets = any_targets(c, n);
  const RegressionDataset<double> dataset(features, targets);
  auto groups = indices_of(keys<Key>(c, n, 5));
  GroupIndexer<Key> indexer;
  for (auto &g : groups) {
    c.shuffle(g.second);
    indexer[g.first] = g.second;
    c.show("group", text(g.second));
  }
  c.nontrivial(groups.size() > 1);
  c.label_if(groups.size() == n && n > 1, "singletons");

  Grouped<Key, Eigen::VectorXd> means;
  Grouped<Key, MarginalDistribution> marginals;
  Grouped<Key, JointDistribution> joints;
  const Eigen::Index m = static_cast<Eigen::Index>(groups.size());
  Eigen::VectorXd of_mean(m), of_marginal(m), of_joint(m);
  Eigen::VectorXd mean(static_cast<Eigen::Index>(n)), var(static_cast<Eigen::Index>(n));
  Eigen::Index at = 0;
  for (const auto &g : groups) {
    const Eigen::Index k = static_cast<Eigen::Index>(g.second.size());
    const Eigen::VectorXd p = gen::vec(c, k);
    const Eigen::MatrixXd cov = gen::spd(c, k);
    means.emplace(g.first, p);
    marginals.emplace(g.first, MarginalDistribution(p, Eigen::VectorXd(cov.diagonal())));
    joints.emplace(g.first, JointDistribution(p, cov));
    const auto truth = take(targets, g.second);
    of_mean[at] = OfMean::eval(p, truth);
    of_marginal[at] = weighted(p, Eigen::MatrixXd(cov.diagonal()), truth);
    of_joint[at] = weighted(p, cov, truth);
    ++at;
    for (Eigen::Index i = 0; i < k; ++i) {
      mean[static_cast<Eigen::Index>(g.second[static_cast<std::size_t>(i)])] = p[i];
      var[static_cast<Eigen::Index>(g.second[static_cast<std::size_t>(i)])] = cov(i, i);
    }
  }
  const auto folds = folds_from_group_indexer(dataset, indexer);
  const PredictionMetric<Eigen::VectorXd> metric = OfMean();
  c.check(cross_validated_scores(OfMean(), folds, means) == of_mean, "scores of means");
  c.check(cross_validated_scores(metric, folds, marginals) == of_mean, "scores of the means of marginals");
  c.check(cross_validated_scores(metric, folds, joints) == of_mean, "scores of the means of joints");
  c.check(cross_validated_scores(OfMarginal(), folds, marginals) == of_marginal, "scores of marginals");
  c.check(cross_validated_scores(OfJoint(), folds, joints) == of_joint, "scores of joints");

  c.check(concatenate_mean_predictions(indexer, means) == mean, "means in the order of the dataset");
  const auto one = concatenate_marginal_predictions(indexer, marginals);
  const auto two = concatenate_marginal_predictions(indexer, joints);
  c.check(one.mean == mean && Eigen::VectorXd(one.covariance.diagonal()) == var, "marginals in the order of the dataset");
  c.check(two.mean == mean && Eigen::VectorXd(two.covariance.diagonal()) == var, "joints in the order of the dataset");
}
} // namespace

PBT_CHECK(scores_of_predictions, 60000, 500000,
          "given means, marginals and joints of every group of 1..9 (up to 60) "
          "data (singletons, interleaved groups, any order of members): "
          "cross_validated_scores with metrics of means, marginals and joints "
          "(of means also from distributions) one score per group in the "
          "order of the keys, and both concatenate_*_predictions, exactly; "
          "non-trivial: > 1 group.") {
  switch (c.i(0, 2)) {
  case 0:
    return scores_case<int>(c);
  case 1:
    return scores_case<std::string>(c);
  default:
    return scores_case<bool>(c);
  }
}
