// pbt:
#include "common.hpp"
using namespace c09;

EXPRESSION(constant_sum, constant(c) + leaf<AllXY>(c))
EXPRESSION(constant_product, leaf<YAndW>(c) * constant(c) + only_measured(noise<Y>(c, 1)))
