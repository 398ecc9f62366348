// pbt: libs=cholmod,spqr,suitesparseconfig
#include "predictions.hpp"

PBT_CHECK(dense_equations, 20000, 400000,
          "sparse Gaussian processes with a dense QR (groups by position, "
          "every datum alone, all together; generated or uniform inducing "
          "points; random parameters and nuggets from 1e-8; 1..10 data in any "
          "order, with repeats): means, marginals, joints, noisy measurements "
          "and log likelihood against the dense PITC equations in long "
          "double; non-trivial: > 1 group and > 1 inducing point.") {
  if (c.coin())
    return choose_grouper(c, noisy_smooth(), Drift() + Offset(), DenseQRImplementation());
  return choose_grouper(c, rough(), ZeroMean(), DenseQRImplementation());
}
