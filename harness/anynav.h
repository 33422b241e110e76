// an arbitrary navigation record
#ifndef ANYNAV_H
#define ANYNAV_H
#include "vf.h"
#include "navrnx.hpp"
#include <iostream>
static inline void any_nav(ngpt::NavDataFrame &f, ngpt::SATELLITE_SYSTEM s) {
  f.system() = s;
  f.prn() = vf_i32("prn");
  for (int i = 0; i < 31; i++) f.data(i) = vf_real("data");
}
// reference epochs: any day, any second of the day
static inline void any_epochs(ngpt::NavDataFrame &f) {
  // the reference epochs of one record are at most a day apart
  // the reference epochs of one record are at most a day apart
  int64_t d1 = vf_in("toc_mjd", 2, 999999), s1 = vf_in("toc_sec", 0, 86399), s2 = vf_in("toe_sec", 0, 86399);
  int64_t d2 = d1 + vf_concretize(vf_in("toe_day_minus_toc_day", -1, 1));
  f.toc__ = ngpt::datetime<ngpt::seconds>(ngpt::modified_julian_day(d1), ngpt::seconds(s1));
  f.toe__ = ngpt::datetime<ngpt::seconds>(ngpt::modified_julian_day(d2), ngpt::seconds(s2));
}
#endif
