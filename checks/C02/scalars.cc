// pbt:
#include "updates.hpp"
using namespace c02;

PBT_CHECK(smooth_updates, 40000, 2000000,
          "2..13 scalar observations (repeats included, heteroscedastic noise) "
          "split at random into 2 or 3 batches in random order, fit on the "
          "first and updated with the others, against one long double "
          "conditioning on all of them, with measurement-only noise and a mean "
          "function; non-trivial: the update changes a prediction by > 0.01.") {
  updates<double>(c, smooth_model());
}
PBT_CHECK(rough_updates, 40000, 2000000,
          "as above with noise which is part of the function.") {
  updates<double>(c, rough_model());
}
