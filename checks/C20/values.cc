// pbt:
#include <albatross/serialize/Core>
#include <albatross/serialize/Ransac>
#include "pbt.hpp"
using namespace albatross;
#include "roundtrip.hpp"
using namespace roundtrip;

namespace {
bool same(const LinearCombination<double> &a, const LinearCombination<double> &b) {
  return roundtrip::same(a.values, b.values) && roundtrip::same(a.coefficients, b.coefficients);
}

PriorContainer prior(pbt::Case &c) {
  const double a = finite(c), b = std::fabs(c.gauss()) + 0.1;
  switch (c.i(0, 9)) {
  case 0:
    return UninformativePrior();
  case 1:
    return FixedPrior();
  case 2:
    return NonNegativePrior();
  case 3:
    return PositivePrior();
  case 4:
    return UniformPrior(-b, b + 1);
  case 5:
    return LogScaleUniformPrior(b * 1e-9, b + 1);
  case 6:
    return GaussianPrior(a, b);
  case 7:
    return PositiveGaussianPrior(a, b);
  case 8:
    return LogNormalPrior(a, b);
  default:
    return PriorContainer();
  }
}

Parameter parameter(pbt::Case &c) {
  const double v = number(c);
  Parameter p(c.coin() ? v : finite(c));
  p.prior = prior(c);
  return p;
}

bool same_prior(const PriorContainer &a, const PriorContainer &b) {
  if (!(a == b) || a.get_name() != b.get_name() || a.is_log_scale() != b.is_log_scale() || a.is_fixed() != b.is_fixed() ||
      !roundtrip::same(a.lower_bound(), b.lower_bound()) || !roundtrip::same(a.upper_bound(), b.upper_bound()))
    return false;
  for (const double x : {-1e9, -1., 0., 0.3, 2., 1e9})
    if (!roundtrip::same(a.log_pdf(x), b.log_pdf(x)))
      return false;
  return true;
}

ParameterStore store(pbt::Case &c) {
  ParameterStore p;
  const std::size_t n = c.size(0, 5);
  for (std::size_t i = 0; i < n; ++i)
    p[c.coin() ? "p" + std::to_string(i) : word(c)] = parameter(c);
  return p;
}

bool same_store(const ParameterStore &a, const ParameterStore &b) {
  if (map_keys(a) != map_keys(b))
    return false;
  for (const auto &p : a)
    if (!roundtrip::same(p.second.value, b.at(p.first).value) || !same_prior(p.second.prior, b.at(p.first).prior))
      return false;
  return true;
}

MarginalDistribution marginal(pbt::Case &c, std::size_t n) {
  MarginalDistribution d(vector(c, n), vector(c, n).asDiagonal());
  d.metadata = metadata(c);
  return d;
}
JointDistribution joint(pbt::Case &c, std::size_t n) {
  JointDistribution d(vector(c, n), matrix<Eigen::MatrixXd>(c, n, n));
  d.metadata = metadata(c);
  return d;
}

using Either = variant<int, double, std::string>;
Either either(pbt::Case &c) {
  Either v;
  switch (c.i(0, 2)) {
  case 0:
    v = static_cast<int>(c.i(-1000, 1000));
    break;
  case 1:
    v = number(c);
    break;
  default:
    v = word(c);
  }
  return v;
}
struct SameEither {
  bool operator()(const Either &a, const Either &b) const {
    if (a.which() != b.which())
      return false;
    if (a.is<double>())
      return roundtrip::same(a.get<double>(), b.get<double>());
    return a == b;
  }
};

template <typename F, typename Make>
RegressionDataset<F> dataset(pbt::Case &c, const Make &make) {
  std::vector<F> features;
  const std::size_t n = c.size(0, 5);
  for (std::size_t i = 0; i < n; ++i)
    features.push_back(make(c));
  RegressionDataset<F> d(features, marginal(c, n));
  d.metadata = metadata(c);
  return d;
}

template <typename Key, typename Make> RansacOutput<Key> output(pbt::Case &c, const Make &make) {
  const auto iteration = [&]() {
    RansacIteration<Key> it;
    const std::size_t n = c.size(0, 4);
    for (std::size_t i = 0; i < n; ++i) {
      it.candidates.push_back(make(c));
      it.inliers[make(c)] = number(c);
      it.outliers[make(c)] = number(c);
    }
    it.consensus_metric_value = number(c);
    return it;
  };
  RansacOutput<Key> out;
  out.return_code = c.pick<ransac_return_code_t>({RANSAC_RETURN_CODE_SUCCESS, RANSAC_RETURN_CODE_NO_CONSENSUS, RANSAC_RETURN_CODE_INVALID, RANSAC_RETURN_CODE_FAILURE,
                                                 RANSAC_RETURN_CODE_EXCEEDED_MAX_FAILED_CANDIDATES});
  out.best = iteration();
  const std::size_t n = c.size(0, 3);
  for (std::size_t i = 0; i < n; ++i)
    out.iterations.push_back(iteration());
  return out;
}
template <typename Key> bool same_map(const std::map<Key, double> &a, const std::map<Key, double> &b) {
  if (map_keys(a) != map_keys(b))
    return false;
  for (const auto &p : a)
    if (!roundtrip::same(p.second, b.at(p.first)))
      return false;
  return true;
}
template <typename Key> bool same_iteration(const RansacIteration<Key> &a, const RansacIteration<Key> &b) {
  return a.candidates == b.candidates && same_map(a.inliers, b.inliers) && same_map(a.outliers, b.outliers) &&
         roundtrip::same(a.consensus_metric_value, b.consensus_metric_value);
}
template <typename Key> bool same_output(const RansacOutput<Key> &a, const RansacOutput<Key> &b) {
  if (a.return_code != b.return_code || !same_iteration(a.best, b.best) || a.iterations.size() != b.iterations.size())
    return false;
  for (std::size_t i = 0; i < a.iterations.size(); ++i)
    if (!same_iteration(a.iterations[i], b.iterations[i]))
      return false;
  return true;
}
const auto usual = [](const auto &a, const auto &b) { return roundtrip::same(a, b); };
} // namespace

PBT_CHECK(values, 12000, 200000,
          "parameters with every prior, parameter stores, distributions and "
          "datasets (features of numbers, text or variants) with metadata, "
          "variants, linear combinations and RANSAC results: two of them, "
          "another value between and after, in JSON, binary and portable "
          "archives, into new and used objects: the same content down to the "
          "last bit, the same bytes when written again, the original "
          "unchanged, truncated archives rejected; numbers include extreme "
          "and non-finite ones; non-trivial: always.") {
  c.nontrivial(true);
  const bool truncate = c.chance(1, 4);
  switch (c.i(0, 10)) {
  case 0:
    return check(c, store(c), store(c), store(c), same_store, truncate);
  case 1:
    return check(c, parameter(c), parameter(c), parameter(c), [](const Parameter &a, const Parameter &b) { return roundtrip::same(a.value, b.value) && same_prior(a.prior, b.prior); }, truncate);
  case 2:
    return check(c, prior(c), prior(c), prior(c), same_prior, truncate);
  case 3:
    return check(c, marginal(c, c.size(0, 5)), marginal(c, c.size(0, 5)), marginal(c, c.size(0, 5)), usual, truncate);
  case 4:
    return check(c, joint(c, c.size(0, 5)), joint(c, c.size(0, 5)), joint(c, c.size(0, 5)), usual, truncate);
  case 5:
    return check(c, dataset<double>(c, number), dataset<double>(c, number), dataset<double>(c, number), usual, truncate);
  case 6:
    return check(c, dataset<std::string>(c, word), dataset<std::string>(c, word), dataset<std::string>(c, word), usual, truncate);
  case 7: {
    const auto same_variants = [](const RegressionDataset<Either> &a, const RegressionDataset<Either> &b) {
      bool ok = a.features.size() == b.features.size() && roundtrip::same(a.targets, b.targets) && a.metadata == b.metadata;
      for (std::size_t i = 0; ok && i < a.features.size(); ++i)
        ok = SameEither()(a.features[i], b.features[i]);
      return ok;
    };
    return check(c, dataset<Either>(c, either), dataset<Either>(c, either), dataset<Either>(c, either), same_variants, truncate);
  }
  case 8:
    return check(c, either(c), either(c), either(c), SameEither(), truncate);
  case 9:
    return check(c, output<std::string>(c, word), output<std::string>(c, word), output<std::string>(c, word), same_output<std::string>, truncate);
  default: {
    const auto key = [](pbt::Case &k) { return static_cast<int>(k.i(-50, 50)); };
    return check(c, output<int>(c, key), output<int>(c, key), output<int>(c, key), same_output<int>, truncate);
  }
  }
}

PBT_CHECK(shared_pools, 150, 1500,
          "a thread pool (or none) of 0..6 threads is read back as one of as "
          "many threads, a single thread being no pool; non-trivial: always.") {
  c.nontrivial(true);
  const std::size_t n = c.size(0, 6);
  std::shared_ptr<ThreadPool> pool = n == 0 ? nullptr : std::make_shared<ThreadPool>(n), read = c.coin() ? nullptr : std::make_shared<ThreadPool>(2);
  const int format = static_cast<int>(c.i(0, 1));
  std::ostringstream os;
  if (format == 0) {
    cereal::JSONOutputArchive ar(os);
    save(ar, pool);
  } else {
    cereal::BinaryOutputArchive ar(os);
    save(ar, pool);
  }
  std::istringstream is(os.str());
  if (format == 0) {
    cereal::JSONInputArchive ar(is);
    load(ar, read);
  } else {
    cereal::BinaryInputArchive ar(is);
    load(ar, read);
  }
  c.check((read == nullptr) == (n < 2), "pool is read where there was one");
  if (read)
    c.eq(static_cast<std::size_t>(read->thread_count()), n, "number of threads");
}
