// pbt:
#include "rebuilt.hpp"
using namespace c03;

PBT_CHECK(replaced_and_updated, 20000, 1000000,
          "a model rebuilt from a joint belief about 1..6 scalar features which "
          "no data need explain, then given 1..5 noisy measurements, some of "
          "them of these features, at once or in two steps: predictions equal "
          "those of the prior with that belief in its place, conditioned in "
          "long double; non-trivial: > 1 feature and > 1 measurement.") {
  replaced<double>(c, smooth_model());
}
PBT_CHECK(replaced_and_updated_trend, 20000, 1000000,
          "as above with correlated measurement-only noise and a "
          "measurement-only mean.") {
  replaced<double>(c, trend_model());
}
PBT_CHECK(replaced_and_updated_rough, 20000, 1000000, "as above with noise in the function.") {
  replaced<double>(c, rough_model());
}
PBT_CHECK(replaced_and_updated_custom, 20000, 1000000, "as above for a user defined type.") {
  replaced<Named>(c, mixed_model());
}
