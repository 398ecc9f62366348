// pbt: libs=cholmod,spqr,suitesparseconfig
#include <albatross/Common>
#include <albatross/Indexing>
#include <albatross/linalg/Utils>
#include "gen.hpp"

using namespace albatross;

// what is printed are eigen values in order and their largest coefficients
PBT_CHECK(eigen_directions, 60000, 600000, "at least two directions") {
  const Eigen::Index n = 1 + static_cast<Eigen::Index>(c.size(0, 5));
  Eigen::VectorXd d(n);
  double last = 0;
  for (Eigen::Index i = 0; i < n; ++i)
    d[i] = last += 0.5 + c.real(0, 3); // distinct
  const Eigen::MatrixXd q =
      Eigen::HouseholderQR<Eigen::MatrixXd>(gen::mat(c, n, n)).householderQ();
  const Eigen::MatrixXd a = q * d.asDiagonal() * q.transpose();
  std::vector<std::string> features;
  for (Eigen::Index i = 0; i < n; ++i)
    features.push_back("f" + std::to_string(i));
  const std::size_t count = static_cast<std::size_t>(c.i(0, n + 2));
  const bool large = c.coin();
  const double above = c.pick<double>({1e-3, 0.3});
  c.show("count", count).show("size", n);
  std::ostringstream o;
  o.precision(12);
  if (large)
    print_large_eigen_directions(a, features, count, above, &o);
  else
    print_small_eigen_directions(a, features, count, above, &o);
  std::istringstream in(o.str());
  std::string word, line;
  double min, max;
  in >> word >> min;
  c.eq(word, std::string("MIN:"), "min line");
  in >> word >> max;
  c.near(min, d[0], 1e-9, "smallest eigen value");
  c.near(max, d[n - 1], 1e-9, "largest eigen value");
  std::getline(in, line);
  std::size_t shown = 0;
  bool more = static_cast<bool>(std::getline(in, line));
  while (more) {
    c.check(line.compare(0, 12, "eigen value:") == 0, "eigen value line: " + line);
    c.check(shown < count && shown < static_cast<std::size_t>(n), "too many directions");
    const Eigen::Index k = large ? n - 1 - static_cast<Eigen::Index>(shown)
                                 : static_cast<Eigen::Index>(shown);
    c.near(std::strtod(line.c_str() + 12, nullptr), d[k], 1e-9, "eigen value");
    ++shown;
    std::set<std::string> seen;
    double prev = 1e300, sign = 0;
    while ((more = static_cast<bool>(std::getline(in, line))) &&
           line.compare(0, 5, "eigen") != 0) {
      std::istringstream l(line);
      double coef;
      std::string f;
      l >> coef >> f;
      c.check(std::fabs(coef) <= prev + 1e-12 && std::fabs(coef) > above - 1e-9, "order of coefficients");
      prev = std::fabs(coef);
      const Eigen::Index fi = std::stol(f.substr(1));
      c.near(std::fabs(coef), std::fabs(q(fi, k)), 1e-8, "coefficient");
      if (sign == 0)
        sign = coef * q(fi, k) > 0 ? 1 : -1;
      else
        c.near(coef, sign * q(fi, k), 1e-8, "sign of the coefficient");
      c.check(seen.insert(f).second, "feature twice");
    }
    for (Eigen::Index i = 0; i < n; ++i)
      if (std::fabs(q(i, k)) > above + 1e-9)
        c.check(seen.count("f" + std::to_string(i)) == 1, "feature missing");
  }
  c.eq(shown, std::min(count, static_cast<std::size_t>(n)), "number of directions");
  c.nontrivial(n > 1 && count > 1);
}
