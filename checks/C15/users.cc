// pbt: tsan=1
#include <atomic>
#include <thread>
#include <albatross/CovarianceFunctions>
#include <albatross/Dataset>
#include <albatross/Evaluation>
#include <albatross/GP>
#include <albatross/Indexing>
#include <albatross/linalg/Block>
#include <albatross/utils/AsyncUtils>
#include "gen.hpp"

using namespace albatross;

namespace {

std::shared_ptr<ThreadPool> gen_pool(pbt::Case &c, std::size_t *threads) {
  *threads = static_cast<std::size_t>(c.pick<long>({2, 3, 4, 8, 5, 1, 0, 12}));
  c.show("threads", *threads);
  if (*threads == 0)
    return nullptr;
  return std::make_shared<ThreadPool>(*threads);
}

void jitter(int d) {
  for (int k = 0; k < d; ++k)
    std::this_thread::yield();
}

struct Pt {
  std::size_t k;
  double x;
};

// exactly symmetric, so that both orders of a pair give the same bits
double pair_value(const Pt &a, const Pt &b) {
  return std::exp(-(a.x - b.x) * (a.x - b.x)) + 0.01 * (a.x * b.x);
}

std::vector<Pt> gen_pts(pbt::Case &c, std::size_t n) {
  std::vector<Pt> xs(n);
  for (std::size_t k = 0; k < n; ++k)
    xs[k] = {k, c.sym(3)};
  return xs;
}

template <typename A, typename B>
void same(pbt::Case &c, const A &a, const B &b, const std::string &w) {
  c.eq(a.rows(), b.rows(), w + " rows");
  c.eq(a.cols(), b.cols(), w + " cols");
  for (Eigen::Index i = 0; i < a.rows(); ++i)
    for (Eigen::Index j = 0; j < a.cols(); ++j)
      c.check(a(i, j) == b(i, j), w + ": differs from the serial result");
}

} // namespace

// every column/row block of a triangle is handed out exactly once, and the
// blocks hold about the same area
PBT_CHECK(partition_of_triangle, 200000, 2000000,
          "at least two partitions of at least two rows") {
  const Eigen::Index n = static_cast<Eigen::Index>(
      c.pick<long>({c.i(0, 40), c.i(0, 40), c.i(0, 3000)}));
  const Eigen::Index k = c.i(1, 40);
  c.show("size", n);
  c.show("partitions", k);
  const auto parts = detail::partition_triangular(n, k);
  c.eq(static_cast<Eigen::Index>(parts.size()), k, "number of partitions");
  Eigen::Index at = 0;
  const double area = 0.5 * static_cast<double>(n) * static_cast<double>(n);
  for (std::size_t b = 0; b < parts.size(); ++b) {
    c.eq(parts[b].first, at, "partition starts where the last ended");
    c.check(parts[b].second >= parts[b].first, "negative partition");
    at = parts[b].second;
    const double a = 0.5 * (static_cast<double>(parts[b].second) *
                                static_cast<double>(parts[b].second) -
                            static_cast<double>(parts[b].first) *
                                static_cast<double>(parts[b].first));
    c.check(std::fabs(a - area / static_cast<double>(k)) <=
                1.5 * static_cast<double>(n) + 1,
            "partition areas are balanced");
  }
  c.eq(at, n, "partitions cover everything");
  c.nontrivial(n > 1 && k > 1);
}

PBT_CHECK_N(threaded_covariance_matrix, 15000, 150000, 30,
            "at least three features and two threads") {
  std::size_t threads;
  const auto pool = gen_pool(c, &threads);
  const auto xs = gen_pts(c, c.size(0, 24));
  const auto ys = gen_pts(c, c.size(0, 24));
  const std::size_t n = xs.size(), m = ys.size();
  std::vector<int> delay(64);
  for (auto &d : delay)
    d = c.chance(1, 8) ? 3 : 0;
  { // cross
    std::vector<std::atomic<int>> calls(n * m);
    for (auto &x : calls)
      x = 0;
    const auto caller = [&](const Pt &a, const Pt &b) {
      jitter(delay[(a.k * 7 + b.k) % 64]);
      ++calls[a.k * m + b.k];
      return pair_value(a, b) + 10. * static_cast<double>(a.k);
    };
    const Eigen::MatrixXd got =
        compute_covariance_matrix(caller, xs, ys, pool.get());
    c.eq(got.rows(), static_cast<Eigen::Index>(n), "rows");
    c.eq(got.cols(), static_cast<Eigen::Index>(m), "cols");
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < m; ++j) {
        c.eq(got(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)),
             pair_value(xs[i], ys[j]) + 10. * static_cast<double>(i),
             "cross covariance entry");
        c.eq(calls[i * m + j].load(), 1, "calls per pair");
      }
  }
  { // symmetric
    std::vector<std::atomic<int>> calls(n * n);
    for (auto &x : calls)
      x = 0;
    const auto caller = [&](const Pt &a, const Pt &b) {
      jitter(delay[(a.k * 5 + b.k) % 64]);
      ++calls[a.k * n + b.k];
      return pair_value(a, b);
    };
    const Eigen::MatrixXd got =
        compute_covariance_matrix(caller, xs, pool.get());
    c.eq(got.rows(), static_cast<Eigen::Index>(n), "rows");
    c.eq(got.cols(), static_cast<Eigen::Index>(n), "cols");
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < n; ++j) {
        c.eq(got(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)),
             pair_value(xs[i], xs[j]), "covariance entry");
        const int total = calls[i * n + j].load() +
                          (i == j ? 0 : calls[j * n + i].load());
        c.check(total >= 1, "pair never evaluated");
      }
  }
  c.nontrivial(n > 2 && threads > 1);
}

PBT_CHECK_N(threaded_linear_algebra, 15000, 150000, 30,
            "at least two blocks and two threads") {
  std::size_t threads;
  const auto pool = gen_pool(c, &threads);
  // LDLT inverse blocks
  const Eigen::Index n = 1 + static_cast<Eigen::Index>(c.size(0, 11));
  const Eigen::SerializableLDLT ldlt(gen::spd(c, n));
  std::vector<std::vector<std::size_t>> blocks;
  const std::size_t n_blocks = c.size(0, 8);
  for (std::size_t b = 0; b < n_blocks; ++b) {
    auto idx = c.subset(static_cast<std::size_t>(n));
    if (idx.empty())
      idx.push_back(0);
    blocks.push_back(idx);
  }
  const auto serial = ldlt.inverse_blocks(blocks);
  const auto parallel = ldlt.inverse_blocks(blocks, pool.get());
  c.eq(parallel.size(), serial.size(), "number of inverse blocks");
  for (std::size_t b = 0; b < serial.size(); ++b)
    same(c, parallel[b], serial[b], "inverse block");
  // block diagonal solves
  BlockDiagonal bd;
  const std::size_t k = c.size(1, 8);
  Eigen::Index total = 0;
  for (std::size_t b = 0; b < k; ++b) {
    const Eigen::Index m = 1 + static_cast<Eigen::Index>(c.size(0, 4));
    bd.blocks.push_back(gen::spd(c, m));
    total += m;
  }
  const auto bl = bd.ldlt();
  const Eigen::MatrixXd rhs =
      gen::mat(c, total, 1 + static_cast<Eigen::Index>(c.size(0, 3)));
  const Eigen::VectorXd v = rhs.col(0);
  same(c, bl.solve(rhs, pool.get()), bl.solve(rhs), "block solve");
  same(c, bl.solve(v, pool.get()), bl.solve(v), "block vector solve");
  same(c, bl.sqrt_solve(rhs, pool.get()), bl.sqrt_solve(rhs),
       "block sqrt solve");
  same(c, bl.sqrt_solve(v, pool.get()), bl.sqrt_solve(v),
       "block vector sqrt solve");
  c.nontrivial(k > 1 && threads > 1);
}

PBT_CHECK_N(threaded_held_out_predictions, 10000, 100000, 30,
            "at least three groups and two threads") {
  std::size_t threads;
  const auto pool = gen_pool(c, &threads);
  const Eigen::Index n = 2 + static_cast<Eigen::Index>(c.size(0, 10));
  const JointDistribution prior(gen::vec(c, n), gen::spd(c, n));
  Eigen::VectorXd noise(n);
  for (Eigen::Index i = 0; i < n; ++i)
    noise[i] = c.logreal(0.1, 2);
  const MarginalDistribution truth(gen::vec(c, n), noise);
  GroupIndexer<long> indexer;
  std::map<long, std::vector<std::size_t>> idx;
  const std::size_t kg = 1 + c.src.draw(7);
  for (Eigen::Index i = 0; i < n; ++i)
    idx[-static_cast<long>(c.src.draw(kg - 1))].push_back(
        static_cast<std::size_t>(i));
  for (const auto &kv : idx)
    indexer.emplace(kv.first, kv.second);
  const auto a = leave_one_group_out_conditional_means(prior, truth, indexer);
  const auto b =
      leave_one_group_out_conditional_means(prior, truth, indexer, pool.get());
  c.eq(a.size(), b.size(), "number of groups");
  for (const auto &kv : a)
    same(c, b.at(kv.first), kv.second, "held out mean");
  const auto ma =
      leave_one_group_out_conditional_marginals(prior, truth, indexer);
  const auto mb = leave_one_group_out_conditional_marginals(
      prior, truth, indexer, pool.get());
  for (const auto &kv : ma)
    c.check(mb.at(kv.first) == kv.second, "held out marginal");
  const auto ja = leave_one_group_out_conditional_joints(prior, truth, indexer);
  const auto jb = leave_one_group_out_conditional_joints(prior, truth, indexer,
                                                         pool.get());
  for (const auto &kv : ja)
    c.check(jb.at(kv.first) == kv.second, "held out joint");
  c.nontrivial(idx.size() > 2 && threads > 1);
}

// a model given a pool predicts what it predicts without one
PBT_CHECK_N(threaded_model, 400, 4000, 5, "at least four training points") {
  std::size_t threads;
  const auto pool = gen_pool(c, &threads);
  std::vector<double> xs, zs;
  const std::size_t n = 2 + c.size(0, 18);
  for (std::size_t k = 0; k < n; ++k)
    xs.push_back(c.real(0, 10));
  const std::size_t m = 1 + c.size(0, 10);
  for (std::size_t k = 0; k < m; ++k)
    zs.push_back(c.real(0, 10));
  const RegressionDataset<double> data(
      xs, MarginalDistribution(gen::vec(c, static_cast<Eigen::Index>(n)),
                               Eigen::VectorXd::Constant(
                                   static_cast<Eigen::Index>(n), 0.1)));
  auto model = gp_from_covariance(SquaredExponential<EuclideanDistance>(2., 1.5) +
                                  IndependentNoise<double>(0.3));
  auto threaded = model;
  threaded.set_thread_pool(pool);
  const JointDistribution a = model.fit(data).predict(zs).joint();
  const JointDistribution b = threaded.fit(data).predict(zs).joint();
  same(c, b.mean, a.mean, "mean");
  same(c, b.covariance, a.covariance, "covariance");
  const MarginalDistribution ma = model.fit(data).predict(zs).marginal();
  const MarginalDistribution mb = threaded.fit(data).predict(zs).marginal();
  c.check(ma == mb, "marginal");
  c.nontrivial(n > 3 && threads > 1);
}
