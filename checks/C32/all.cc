// pbt: opt=O0
#include "partial.hpp"

PBT_CHECK(all_kinds, 7000, 300000, "as in only_mean for a model with all kinds of predictions: each as it was defined.") { history<7>(c); }
