// property: P05
// sources: satsys.cpp gnssobs.cpp gnssobsrv.cpp
#include "vf.h"
#include "obsvec.h"
#include "spec_freq.h"
#include <stdexcept>
using namespace ngpt;

// contribution of one term: coefficient times nominal frequency; systems
// without a fixed carrier (GLONASS, mixed) contribute nothing
static double contribution(SATELLITE_SYSTEM s, int band, double coef, bool &known) {
  known = true;
  switch (s) {
  case SATELLITE_SYSTEM::gps: return coef * nominal('G', band, known);
  case SATELLITE_SYSTEM::sbas: return coef * nominal('S', band, known);
  case SATELLITE_SYSTEM::galileo: return coef * nominal('E', band, known);
  case SATELLITE_SYSTEM::beidou: return coef * nominal('C', band, known);
  case SATELLITE_SYSTEM::qzss: return coef * nominal('J', band, known);
  case SATELLITE_SYSTEM::irnss: return coef * nominal('I', band, known);
  default: return 0;
  }
}

static SATELLITE_SYSTEM any_system() {
  int8_t i = vf_i8("system");
  vf_assume(i >= 0 && i < 8);
  return static_cast<SATELLITE_SYSTEM>(i);
}

// One term, every system, band and coefficient.
CONTRACT(obsfreq_one) {
  SATELLITE_SYSTEM s = any_system();
  int32_t band = vf_i32("band");
  double coef = vf_real("coef");
  char attr = vf_i8("attr");
  GnssObservable o(s, ObservationCode(OBSERVABLE_TYPE::carrier_phase, band, ObservationAttribute(attr)), coef);
  bool known;
  double want = contribution(s, band, coef, known);
  bool thrown = false;
  double f = 0;
  try {
    f = o.frequency();
  } catch (std::out_of_range &) {
    thrown = true;
  }
  vf_assert(thrown == !known, "unknown band rejected, known band accepted");
  if (!thrown && known) vf_assert_eq(f, want, "coefficient times nominal frequency");
}

// Two terms added one after the other through the two overloads.
CONTRACT(obsfreq_two) {
  SATELLITE_SYSTEM s1 = any_system(), s2 = any_system();
  int32_t b1 = vf_i32("band1"), b2 = vf_i32("band2");
  double k1 = vf_real("coef1"), k2 = vf_real("coef2");
  GnssObservable o(GnssRawObservable(s1, ObservationCode(OBSERVABLE_TYPE::carrier_phase, b1)), k1);
  if (vf_bool("overload"))
    o.add(s2, ObservationCode(OBSERVABLE_TYPE::pseudorange, b2), k2);
  else
    o.add(GnssRawObservable(s2, ObservationCode(OBSERVABLE_TYPE::pseudorange, b2)), k2);
  bool n1, n2;
  double want = contribution(s1, b1, k1, n1) + contribution(s2, b2, k2, n2);
  bool thrown = false;
  double f = 0;
  try {
    f = o.frequency();
  } catch (std::out_of_range &) {
    thrown = true;
  }
  vf_assert(thrown == !(n1 && n2), "rejected iff one band is unknown");
  if (!thrown && n1 && n2) vf_assert_eq(f, want, "sum of the two contributions");
  vf_assert(o.underlying_vector().size() == 2, "two terms");
}

// Default coefficients are one.
CONTRACT(obsfreq_default_coef) {
  SATELLITE_SYSTEM s = any_system();
  int32_t b = vf_i32("band");
  bool known;
  double want = contribution(s, b, 1, known);
  vf_assume(known);
  ObservationCode c(OBSERVABLE_TYPE::carrier_phase, b);
  GnssObservable o1(s, c), o2{GnssRawObservable(s, c)}, o3(s, c, 0), o4(s, c, 0);
  o3.add(s, c);
  o4.add(GnssRawObservable(s, c));
  vf_assert_eq(o1.frequency(), want, "constructor from system and code");
  vf_assert_eq(o2.frequency(), want, "constructor from a raw observable");
  vf_assert_eq(o3.frequency(), want, "adding system and code");
  vf_assert_eq(o4.frequency(), want, "adding a raw observable");
}

// Any number of terms: the frequency is the sum of the contributions, and the
// call is rejected iff some term has an unknown band.
CONTRACT(obsfreq_sum) {
  AnyObservable a("terms");
  bool thrown = false;
  double f = 0;
  try {
    f = a.o.frequency();
  } catch (std::out_of_range &) {
    thrown = true;
  }
  double sum = 0;
  bool all = true;
  for (std::size_t i = 0; i < a.n; i++) {
    bool known;
    sum += contribution(a.p[i].__type.satsys(), a.p[i].__type.band(), a.p[i].__coef, known);
    if (!known) { all = false; break; }
  }
  vf_assert(thrown == !all, "rejected iff some band is unknown");
  if (!thrown && all) vf_assert_eq(f, sum, "sum over all terms");
}
