// Stand-in for ggdatetime's date reading (assumed contract, see DESIGN.md):
// five integers and the seconds are read from the text, separated by one
// character each; text without them throws std::invalid_argument, a date that
// does not exist throws std::out_of_range.  In the verifier the day number of a
// date is an uninterpreted function of year, month and day.
#ifndef VF_GGDATETIME_READ
#define VF_GGDATETIME_READ
#include "dtcalendar.hpp"
#include <cstdlib>
#include <stdexcept>
#include "vf.h"
extern "C" {
int64_t vf_ufb3_mjd(int64_t y, int64_t m, int64_t d);
int64_t vf_ufb3_date_exists(int64_t y, int64_t m, int64_t d);
}
#ifdef VF_NATIVE
inline bool vf_date_exists(long y, long m, long d) { return m >= 1 && m <= 12 && d >= 1 && d <= ngpt::day_of_month::days_in(y, m); }
inline long vf_date_mjd(long y, long m, long d) { return ngpt::vf_cal2mjd(y, m, d); }
#else
inline bool vf_date_exists(long y, long m, long d) { return vf_ufb3_date_exists(y, m, d) != 0; }
inline long vf_date_mjd(long y, long m, long d) {
  long r = vf_ufb3_mjd(y, m, d);
  vf_assume(r >= -100000000L && r <= 100000000L);
  return r;
}
#endif
namespace ngpt {
template <typename T> datetime<T> strptime_ymd_hms(const char *str, char **stop = nullptr) {
  char *end;
  const char *start = str;
  long v[5];
  for (int i = 0; i < 5; ++i) {
    v[i] = std::strtol(start, &end, 10);
    if (start == end || v[i] < -99999 || v[i] > 99999) throw std::invalid_argument("invalid date format");
    start = end + 1;
  }
  long s = std::strtol(start, &end, 10);
  if (start == end || s < -99999 || s > 99999) throw std::invalid_argument("invalid date format");
  long frac = 0, f = T::template sec_factor<long>();
  if (*end == '.') {
    ++end;
    while (*end >= '0' && *end <= '9') {
      f /= 10;
      frac += (*end - '0') * f;
      ++end;
    }
  }
  if (stop) *stop = end;
  if (!vf_date_exists(v[0], v[1], v[2])) throw std::out_of_range("invalid date");
  datetime<T> t(modified_julian_day(vf_date_mjd(v[0], v[1], v[2])),
                T((v[3] * 3600L + v[4] * 60L + s) * T::template sec_factor<long>() + frac));
  t.normalize();
  return t;
}
} // namespace ngpt
#endif
