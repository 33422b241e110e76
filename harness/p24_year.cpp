// property: P24
// sources:
#include "vf.h"
#include "rinex.hpp"
// Years 00-79 are 2000-2079, years 80-99 are 1980-1999.
CONTRACT(two_digit_year) {
  int32_t y = vf_i32("year");
  vf_assume(y >= 0 && y <= 99);
  int f = ngpt::rinex::four2two_digit_year(y);
  vf_assert(f == (y >= 80 ? 1900 : 2000) + y, "80-99 are 1980-1999, 00-79 are 2000-2079");
  vf_assert(f % 100 == y && f >= 1980 && f <= 2079, "the last two digits are kept");
}
