// pbt: opt=O0
#include "partial.hpp"

PBT_CHECK(only_mean, 10000, 400000,
          "a model whose predictions are defined by a mean only, fitted to "
          "0..5 (at times 60) data in each way, and updated up to 4 times in "
          "each way: every way to predict and every kind of prediction is "
          "exactly what the model's definitions and the data so far imply, "
          "predictions of temporary fits outlive them, empty requests give "
          "empty answers, and originals, copies and models keep theirs; "
          "non-trivial: data, an update and something predicted.") { history<1>(c); }
PBT_CHECK(only_marginal, 10000, 400000, "as above with a marginal only, from which follows the mean.") { history<2>(c); }
PBT_CHECK(only_joint, 10000, 400000, "as above with a joint only, from which follow the others.") { history<4>(c); }
