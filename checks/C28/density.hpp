#ifndef VERIF_C28_DENSITY_HPP
#define VERIF_C28_DENSITY_HPP
#include <albatross/Core>
// (the headers of the samplers do not pull these in themselves)
#include <fstream>
#include <albatross/Samplers>
#include "pbt.hpp"
#include <random>

// A family of densities which can be evaluated (without normalisation) and
// sampled from exactly.
struct Density {
  enum Kind { Gaussian, Correlated, Box, Exponential };
  Kind kind = Gaussian;
  double outside = -HUGE_VAL; // the value returned outside of the support
  std::size_t dim = 1;
  std::vector<double> loc, scale;
  double rho = 0; // correlation of neighbouring coordinates

  double operator()(const std::vector<double> &x) const {
    double q = 0;
    for (std::size_t i = 0; i < dim; ++i) {
      const double z = (x[i] - loc[i]) / scale[i];
      switch (kind) {
      case Gaussian:
        q -= 0.5 * z * z;
        break;
      case Correlated: {
        // z_i = rho z_{i-1} + sqrt(1 - rho^2) e_i
        const double prev = i ? (x[i - 1] - loc[i - 1]) / scale[i - 1] : 0;
        const double e = i ? (z - rho * prev) / std::sqrt(1 - rho * rho) : z;
        q -= 0.5 * e * e;
        break;
      }
      case Box:
        if (!(z >= 0 && z <= 1))
          return outside;
        break;
      case Exponential:
        if (!(z >= 0))
          return outside;
        q -= z;
        break;
      }
    }
    return q;
  }

  template <typename Rng> std::vector<double> sample(Rng &rng) const {
    std::vector<double> x(dim);
    std::normal_distribution<double> n;
    std::uniform_real_distribution<double> u(0, 1);
    std::exponential_distribution<double> ex(1);
    double prev = 0;
    for (std::size_t i = 0; i < dim; ++i) {
      double z = 0;
      if (kind == Gaussian)
        z = n(rng);
      else if (kind == Correlated)
        z = i ? rho * prev + std::sqrt(1 - rho * rho) * n(rng) : n(rng);
      else if (kind == Box)
        z = u(rng);
      else
        z = ex(rng);
      prev = z;
      x[i] = loc[i] + scale[i] * z;
    }
    return x;
  }

  // the probability that coordinate i is less than x
  double cdf(double x, std::size_t i) const {
    const double z = (x - loc[i]) / scale[i];
    if (kind == Gaussian || kind == Correlated)
      return 0.5 * std::erfc(-z / std::sqrt(2.));
    if (kind == Box)
      return std::min(1., std::max(0., z));
    return z > 0 ? -std::expm1(-z) : 0;
  }
};

inline Density gen_density(pbt::Case &c, std::size_t max_dim) {
  Density d;
  d.dim = 1 + c.size(0, max_dim - 1);
  d.kind = static_cast<Density::Kind>(c.i(0, 3));
  d.outside = c.pick<double>({-HUGE_VAL, std::nan(""), HUGE_VAL});
  d.rho = d.kind == Density::Correlated ? c.real(-0.9, 0.9) : 0;
  const bool unit = c.coin();
  for (std::size_t i = 0; i < d.dim; ++i) {
    d.loc.push_back(unit ? 0. : c.sym(20));
    d.scale.push_back(unit ? 1. : c.logreal(0.01, 100));
  }
  c.show("density", d.kind).show("dim", d.dim).show("rho", d.rho);
  c.showv("loc", d.loc).showv("scale", d.scale);
  return d;
}

inline std::default_random_engine gen_engine(pbt::Case &c) {
  std::default_random_engine e(static_cast<unsigned>(1 + c.i(0, 2147483000)));
  e.discard(5); // the first draws of this engine are proportional to the seed
  return e;
}

#endif
