// pbt:
#include "common.hpp"
using namespace c09;

EXPRESSION(measured_noise, leaf<AllXY>(c) + only_measured(noise<X>(c, 0)))
EXPRESSION(measured_sum, leaf<OnlyX>(c) + only_measured(leaf<YAndW>(c) + leaf<Sometimes>(c)))
EXPRESSION(measured_product, leaf<AllXY>(c) * only_measured(leaf<YAndW>(c)) + noise<W>(c, 2))
