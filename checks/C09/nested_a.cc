// pbt:
#include "common.hpp"
using namespace c09;

EXPRESSION(sum_of_two, leaf<AllXY>(c) + leaf<YAndW>(c))
EXPRESSION(product_in_sum, leaf<OnlyX>(c) + leaf<AllXY>(c) * leaf<YAndW>(c))
EXPRESSION(product_of_partial, leaf<Sometimes>(c) * leaf<AllXY>(c))
