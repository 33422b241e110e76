// property: P15
// sources: satsys.cpp
// flags: -I@/stubs
// fixup: constexpr double F_CLOCK=>const double F_CLOCK

#include "anynav.h"
#include <cmath>
using namespace ngpt;

// gravitational parameter and relativistic constant of the interface documents
// (IS-GPS-200 20.3.3.3.3.1, Galileo OS SIS ICD 5.1.4, BDS-SIS-ICD 5.2.4.10)
template <SATELLITE_SYSTEM S> struct Icd;
template <> struct Icd<SATELLITE_SYSTEM::gps> { static double mi() { return 3.986005e14; } static double F() { return -4.442807633e-10; } };
template <> struct Icd<SATELLITE_SYSTEM::galileo> { static double mi() { return 3.986004418e14; } static double F() { return -4.442807309e-10; } };
template <> struct Icd<SATELLITE_SYSTEM::beidou> { static double mi() { return 3.986004418e14; }
  static double F() { return -2e0 * std::sqrt(3.986004418e14) / (2.99792458e8 * 2.99792458e8); } };

struct Rec {
  NavDataFrame f;
  double t, toc, dt;
  double a0, a1, a2, e, sA;
  template <SATELLITE_SYSTEM S> void any() {
    f.system() = S;
    for (int i = 0; i < 31; i++) f.data(i) = vf_real_hint("data", -1., 1.);
    f.data(10) = vf_real_hint("sqrtA", 1000., 9000.);
    f.data(5) = vf_real_hint("deltan", -1e-5, 1e-5);
    any_epochs(f);
    a0 = f.data(0), a1 = f.data(1), a2 = f.data(2), e = f.data(8), sA = f.data(10);
    vf_assume(e >= 0 && e < 1 && sA > 0);
    t = vf_real_hint("seconds_from_toc_day", -500000., 500000.);
    toc = (double)f.toc__.sec().as_underlying_type();
    dt = t - toc;
    vf_assume(dt >= -302400 && dt <= 302400);
  }
};

// polynomial plus relativistic term for a given eccentric anomaly
template <SATELLITE_SYSTEM S> static void given_anomaly() {
  Rec r;
  r.any<S>();
  double E = vf_real_hint("E", -7., 7.), dtsv = 0;
  int st = r.f.sv_clock<S>(r.t, dtsv, &E);
  vf_assert(st == 0, "the correction is computed for every epoch within half a week");
  vf_assert_near(dtsv, r.a0 + r.a1 * r.dt + r.a2 * r.dt * r.dt + Icd<S>::F() * r.e * r.sA * std::sin(E), 1e-12 + 1e-13 * (std::fabs(r.a1 * r.dt) + std::fabs(r.a2 * r.dt * r.dt)),
                 "clock polynomial plus relativistic term");
}

// without an eccentric anomaly: the relativistic term is F e sqrtA sin E for an
// E solving Kepler's equation E = M + e sin E at that epoch.  S = sin E is
// recovered from the correction; S = sin(M + e S) up to the tolerance.
template <SATELLITE_SYSTEM S> static void own_anomaly() {
  Rec r;
  r.any<S>();
  vf_assume(r.e > 1e-3 && r.a0 > -1e-3 && r.a0 < 1e-3);
  r.f.data(1) = r.f.data(2) = 0; // the polynomial is the subject of the contracts above
  double dtsv = 0;
  int st = r.f.sv_clock<S>(r.t, dtsv);
  if (st) return;
  double days = (double)(r.f.toc__.mjd().as_underlying_type() - r.f.toe__.mjd().as_underlying_type());
  double tk = r.t + 86400. * days - (double)r.f.toe__.sec().as_underlying_type();
  double A = r.sA * r.sA;
  double M = r.f.data(6) + (std::sqrt(Icd<S>::mi() / (A * A * A)) + r.f.data(5)) * tk;
  double sinE = (dtsv - r.a0) / (Icd<S>::F() * r.e * r.sA);
  double res = sinE - std::sin(M + r.e * sinE);
  vf_assert(res <= 1e-6 && res >= -1e-6, "relativistic term of an anomaly solving Kepler's equation");
}

// @confirm
CONTRACT(clock_gps) { given_anomaly<SATELLITE_SYSTEM::gps>(); }
// @confirm
CONTRACT(clock_galileo) { given_anomaly<SATELLITE_SYSTEM::galileo>(); }
// @confirm
CONTRACT(clock_beidou) { given_anomaly<SATELLITE_SYSTEM::beidou>(); }
// @confirm
// @option lipschitz=1 @option canon=1 @option nosqrt=1 @option unroll=3
CONTRACT(kepler_clock_gps) { own_anomaly<SATELLITE_SYSTEM::gps>(); }
// @confirm
// @option lipschitz=1 @option canon=1 @option nosqrt=1 @option unroll=3
CONTRACT(kepler_clock_galileo) { own_anomaly<SATELLITE_SYSTEM::galileo>(); }
// @confirm
// @option lipschitz=1 @option canon=1 @option nosqrt=1 @option unroll=3
CONTRACT(kepler_clock_beidou) { own_anomaly<SATELLITE_SYSTEM::beidou>(); }
