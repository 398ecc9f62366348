// pbt: libs=cholmod,spqr,suitesparseconfig
#include "same.hpp"

PBT_CHECK(sparse_models, 300, 4000,
          "as for models, for sparse Gaussian processes by dense QR and their "
          "fits; non-trivial: always.") {
  c.nontrivial(true);
  const auto dense = smooth_model();
  return models<true>(c, named(c, sparse_gp_from_covariance_and_mean(dense.get_covariance(), dense.get_mean(), LeaveOneOutGrouper(), UniformlySpacedInducingPoints(4), "sparse")));
}
