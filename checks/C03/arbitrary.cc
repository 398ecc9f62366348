// pbt:
#include "rebuilt.hpp"
using namespace c03;

PBT_CHECK(any_prediction, 40000, 2000000,
          "arbitrary joint predictions (definite, singular, scaled priors) at "
          "1..8 scalar features, with a mean function: the rebuilt model "
          "predicts them again, also for subsets in any order; non-trivial: > 1 "
          "feature.") {
  arbitrary<double>(c, trend_model());
}
PBT_CHECK(any_prediction_rough, 40000, 2000000,
          "as above without a mean function and noise in the function.") {
  arbitrary<double>(c, rough_model());
}
PBT_CHECK(any_prediction_custom, 40000, 2000000,
          "as above for a user defined feature type.") {
  arbitrary<Named>(c, mixed_model());
}
