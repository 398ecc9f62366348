// pbt:
#include "rebuilt.hpp"
using namespace c03;

namespace {
// measurement noise only, so that the values at the training features are all
// there is to know
inline auto model_a() {
  return gp_from_covariance_and_mean(
      Matern32<EuclideanDistance>(2., 1.5) + measurement_only(IndependentNoise<double>(0.4)),
      Drift() + Offset(), "a");
}
inline auto model_b() {
  return gp_from_covariance(Exponential<EuclideanDistance>(2., 1.5) * Constant(0.5), "b");
}
inline auto model_c() {
  return gp_from_covariance_and_mean(Own() + measurement_only(NamedNoise()), Drift() + Offset(), "c");
}
} // namespace

PBT_CHECK(sufficient_features, 12000, 600000,
          "a model fit on noisy data, predicted at features which include all "
          "training features and rebuilt from that prediction: predictions "
          "(plain and measured) at any feature equal conditioning on the data "
          "in long double, as do those after adding more data; non-trivial: > "
          "2 rebuilt features.") {
  sufficient<double>(c, model_a());
}
PBT_CHECK(sufficient_features_plain, 12000, 600000, "as above for a product of functions without a mean function.") {
  sufficient<double>(c, model_b());
}
PBT_CHECK(sufficient_features_custom, 12000, 600000, "as above for a user defined type.") {
  sufficient<Named>(c, model_c());
}
