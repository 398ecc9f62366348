// pbt:
#include "same.hpp"

PBT_CHECK(models, 600, 8000,
          "Gaussian processes with mean functions and noise, linear "
          "regression and null models with generated parameters, priors, "
          "names and insights, and their fits of 3..8 data: as for matrices, "
          "with the same name, parameters, predictions, and predictions when "
          "updated with further data; non-trivial: always.") {
  c.nontrivial(true);
  switch (c.i(0, 3)) {
  case 0:
    return models<true>(c, named(c, smooth_model()));
  case 1:
    return models<true>(c, named(c, trend_model()));
  case 2:
    return models<false>(c, LinearRegression());
  default:
    return models<false>(c, NullModel());
  }
}
