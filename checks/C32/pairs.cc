// pbt: opt=O0
#include "partial.hpp"

PBT_CHECK(mean_and_marginal, 7000, 300000, "as in only_mean: each as it was defined.") { history<3>(c); }
PBT_CHECK(mean_and_joint, 7000, 300000, "as in only_mean: the marginal follows from the joint.") { history<5>(c); }
PBT_CHECK(marginal_and_joint, 7000, 300000, "as in only_mean: the mean is the one of the marginal.") { history<6>(c); }
