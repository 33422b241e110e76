// property: P17
// sources: gpsnav.cpp galnav.cpp satsys.cpp
// flags: -I@/stubs
#include "anynav.h"
using namespace ngpt;

// an integer the record carries as a number
static int field(NavDataFrame &f, int idx, int lo, int hi, const char *name) {
  int v = vf_i32(name);
  vf_assume(v >= lo && v <= hi);
  f.data(idx) = v;
  return v;
}

// GPS user range accuracy for every index 0..15 (IS-GPS-200 20.3.3.3.1.3)
CONTRACT(gps_ura) {
  NavDataFrame f;
  any_nav(f, SATELLITE_SYSTEM::gps);
  int n = vf_concretize(field(f, 23, 0, 15, "ura_index"));
  f.data(23) = n;
  static const double nominal_m[15] = {2.0, 2.8, 4.0, 5.7, 8.0, 11.3, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0, 1024.0, 2048.0, 4096.0};
  float u = f.gps_ura();
  if (n < 15) vf_assert_eq(u, (float)nominal_m[n], "URA index maps to its nominal accuracy");
  else vf_assert(u > 1e30, "URA index 15 gives no accuracy prediction");
}

// health flag of every system with navigation records
CONTRACT(health) {
  NavDataFrame f;
  int8_t k = vf_i8("system");
  vf_assume(k >= 0 && k < 8);
  SATELLITE_SYSTEM s = static_cast<SATELLITE_SYSTEM>(k);
  any_nav(f, s);
  int h6 = field(f, 6, 0, 1000, "field6"), h24 = field(f, 24, 0, 1000, "field24");
  bool thrown = false;
  int h = -1;
  try {
    h = f.sv_health();
  } catch (std::runtime_error &) {
    thrown = true;
  }
  bool known = s == SATELLITE_SYSTEM::gps || s == SATELLITE_SYSTEM::galileo || s == SATELLITE_SYSTEM::beidou || s == SATELLITE_SYSTEM::glonass;
  vf_assert(thrown == !known, "systems without records are reported");
  if (known) vf_assert(h == (s == SATELLITE_SYSTEM::glonass ? h6 : h24), "health is the broadcast health field");
}

// fit interval of every system: seconds
CONTRACT(fit) {
  NavDataFrame f;
  int8_t k = vf_i8("system");
  vf_assume(k >= 0 && k < 8);
  SATELLITE_SYSTEM s = static_cast<SATELLITE_SYSTEM>(k);
  any_nav(f, s);
  int hours = field(f, 28, 0, 1000, "fit_hours");
  bool thrown = false;
  long t = -1;
  try {
    t = f.fit_interval();
  } catch (std::runtime_error &) {
    thrown = true;
  }
  if (s == SATELLITE_SYSTEM::gps) vf_assert(!thrown && t == 3600L * hours, "GPS: broadcast hours in seconds");
  else if (s == SATELLITE_SYSTEM::glonass) vf_assert(!thrown && t == 900L, "GLONASS: 15 minutes");
  else if (s == SATELLITE_SYSTEM::galileo || s == SATELLITE_SYSTEM::beidou) vf_assert(!thrown && t == 14400L, "Galileo and BeiDou: 4 hours");
  else vf_assert(thrown, "other systems are reported");
}

CONTRACT(galileo_fields) {
  NavDataFrame f;
  any_nav(f, SATELLITE_SYSTEM::galileo);
  int iod = field(f, 3, 0, 1023, "iodnav");
  double sisa = f.data(23);
  vf_assume(sisa > -1e6 && sisa < 1e6);
  vf_assert(f.gal_iod_nav() == iod, "issue of data is the broadcast one");
  vf_assert_eq(f.gal_sisa(), (float)sisa, "signal in space accuracy is the broadcast one");
}
