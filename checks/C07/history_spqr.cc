// pbt: libs=cholmod,spqr,suitesparseconfig
#include "history.hpp"

PBT_CHECK(sparse_histories, 8000, 200000,
          "histories of 1..4 steps from a sparse fit (sparse QR): updates with "
          "1..6 more data and rebases onto 1..6 new inducing points, shifts of the mean, mean "
          "functions, random parameters and nuggets; every prediction after "
          "every step against the same state kept densely in long double, "
          "and the fit before each update is unchanged; non-trivial: > 1 step "
          "and > 1 inducing point.") {
  if (c.coin())
    return choose(c, noisy_smooth(), Drift() + Offset(), SPQRImplementation());
  return choose(c, rough(), ZeroMean(), SPQRImplementation());
}
