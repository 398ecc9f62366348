// pbt:
#include "common.hpp"
using namespace c09;

EXPRESSION(deep, (leaf<OnlyX>(c) + leaf<YAndW>(c)) * (leaf<AllXY>(c) + leaf<Sometimes>(c)))
EXPRESSION(single, leaf<AllXY>(c))
EXPRESSION(scaled_measurements, scaling<ScaleX>(c) * (leaf<AllXY>(c) + only_measured(noise<X>(c, 0))))
