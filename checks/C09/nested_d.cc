// pbt:
#include "common.hpp"
using namespace c09;

EXPRESSION(scaled, scaling<ScaleX>(c) * leaf<AllXY>(c) + leaf<YAndW>(c))
EXPRESSION(scaled_right, leaf<OnlyX>(c) + leaf<YAndW>(c) * scaling<ScaleAll>(c))
EXPRESSION(scaled_twice, scaling<ScaleAll>(c) * (leaf<Sometimes>(c) * scaling<ScaleX>(c)))
