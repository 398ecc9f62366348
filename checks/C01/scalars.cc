// pbt: 
#include "exact.hpp"
using namespace c01;

PBT_CHECK(smooth_model_conditional, 20000, 1000000,
          "squared exponential + measurement-only noise, linear mean, 1..14 "
          "scalar training features (repeats included) with heteroscedastic "
          "noise, random parameters, 0..6 test features some of which are "
          "training features, against dense long double conditioning of the "
          "pairwise evaluated prior; non-trivial: > 1 training feature and "
          "the data reduces some predicted variance by > 1e-3.") {
  exact<double>(c, smooth_model());
}
PBT_CHECK(rough_model_conditional, 20000, 1000000,
          "as above, sums and products of radial functions with noise which is "
          "part of the function, no mean function.") {
  exact<double>(c, rough_model());
}
PBT_CHECK(trend_model_conditional, 20000, 1000000,
          "as above, polynomial + Matern + measurement-only smooth and white "
          "noise and a measurement-only mean function.") {
  exact<double>(c, trend_model());
}
