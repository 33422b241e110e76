// property: P14
// sources: satsys.cpp glonav.cpp
// flags: -I@/stubs
// fixup: constexpr double F_CLOCK=>const double F_CLOCK
#include "anynav.h"
#include <cmath>
using namespace ngpt;

// constants of the interface documents (IS-GPS-200 20.3.3.4.3.3, Galileo OS SIS
// ICD 5.1.1, BDS-SIS-ICD 5.2.4.11)
template <SATELLITE_SYSTEM S> struct Icd;
template <> struct Icd<SATELLITE_SYSTEM::gps> { static double mi() { return 3.986005e14; } static double we() { return 7.2921151467e-5; } };
template <> struct Icd<SATELLITE_SYSTEM::galileo> { static double mi() { return 3.986004418e14; } static double we() { return 7.2921151467e-5; } };
template <> struct Icd<SATELLITE_SYSTEM::beidou> { static double mi() { return 3.986004418e14; } static double we() { return 7.2921150e-5; } };

static void elements(NavDataFrame &f, SATELLITE_SYSTEM s) {
  f.system() = s;
  for (int i = 0; i < 31; i++) f.data(i) = vf_real_hint("data", -.5, .5);
  f.data(10) = vf_real_hint("sqrtA", 3000., 8000.);
  f.data(8) = vf_real_hint("e", 0., .8);
  f.data(5) = vf_real_hint("deltan", -1e-6, 1e-6);
  f.data(4) = vf_real_hint("Crs", -1e6, 1e6), f.data(16) = vf_real_hint("Crc", -1e6, 1e6);
  f.data(11) = vf_real_hint("toe_sow", 0., 604799.);
  f.data(13) = vf_real_hint("OMEGA0", -3.2, 3.2), f.data(17) = vf_real_hint("omega", -3.2, 3.2), f.data(6) = vf_real_hint("M0", -3.2, 3.2);
  f.data(18) = vf_real_hint("OMEGADOT", -1e-6, 1e-6), f.data(19) = vf_real_hint("IDOT", -1e-6, 1e-6);
  any_epochs(f);
  vf_assume(f.data(8) >= 0 && f.data(8) < 1 && f.data(10) > 0);
}
// seconds from midnight of the day of ToE, at most half a week from ToE
static double any_time(const NavDataFrame &f, double &tk) {
  tk = vf_real_hint("seconds_from_toe", -302400., 302400.);
  vf_assume(tk >= -302400 && tk <= 302400);
  return tk + (double)f.toe__.sec().as_underlying_type();
}

// the position is the ICD's function of the elements and the eccentric anomaly
template <SATELLITE_SYSTEM S> static void position() {
  NavDataFrame f;
  elements(f, S);
  double tk, t = any_time(f, tk), p[3] = {0, 0, 0}, E = 0;
  if (f.kepler2state<S>(t, p, &E)) return;
  const double e = f.data(8), A = f.data(10) * f.data(10);
  const double sE = std::sin(E), cE = std::cos(E), q = 1e0 - e * cE;
  const double v = std::atan2(std::sqrt(1e0 - e * e) * sE / q, (cE - e) / q);
  const double phi = v + f.data(17);
  const double s2 = std::sin(2e0 * phi), c2 = std::cos(2e0 * phi);
  const double u = phi + f.data(9) * s2 + f.data(7) * c2;
  const double r = A * q + f.data(4) * s2 + f.data(16) * c2;
  const double i = f.data(15) + f.data(14) * s2 + f.data(12) * c2 + f.data(19) * tk;
  const double W = f.data(13) + (f.data(18) - Icd<S>::we()) * tk - Icd<S>::we() * f.data(11);
  const double x = r * std::cos(u), y = r * std::sin(u);
  vf_assert_near(p[0], x * std::cos(W) - y * std::cos(i) * std::sin(W), 1e-2, "X of the broadcast orbit");
  vf_assert_near(p[1], x * std::sin(W) + y * std::cos(i) * std::cos(W), 1e-2, "Y of the broadcast orbit");
  vf_assert_near(p[2], y * std::sin(i), 1e-2, "Z of the broadcast orbit");
}

// the eccentric anomaly used solves Kepler's equation at that epoch
template <SATELLITE_SYSTEM S> static void anomaly() {
  NavDataFrame f;
  elements(f, S);
  double tk, t = any_time(f, tk), p[3], E = 0;
  int st = f.kepler2state<S>(t, p, &E);
  if (st) return;
  const double e = f.data(8), A = f.data(10) * f.data(10);
  const double M = f.data(6) + (std::sqrt(Icd<S>::mi() / (A * A * A)) + f.data(5)) * tk;
  const double res = E - e * std::sin(E) - M;
  vf_assert(res <= 1e-9 && res >= -1e-9, "the eccentric anomaly solves Kepler's equation");
}

// epoch to seconds from the reference epochs, system by system
template <SATELLITE_SYSTEM S, typename T> static void dispatch() {
  NavDataFrame f;
  elements(f, S);
  int64_t days = vf_concretize(vf_in("epoch_day_minus_toe_day", -3, 3));
  int64_t tick = vf_in("ticks_of_day", 0, T::max_in_day - 1);
  datetime<T> t(modified_julian_day(f.toe__.mjd().as_underlying_type() + days), T(tick));
  double sod = (double)tick / T::template sec_factor<double>();
  double toe_toc = (double)(f.toe__.mjd().as_underlying_type() - f.toc__.mjd().as_underlying_type());
  double p1[3] = {0, 0, 0}, p2[3] = {0, 0, 0}, c1 = 0, c2 = 0;
  int s1 = f.stateNclock(t, p1, c1);
  int s2 = f.kepler2state<S>(sod + 86400e0 * (double)days, p2);
  if (!s2) s2 = f.sv_clock<S>(sod + 86400e0 * ((double)days + toe_toc), c2);
  vf_assert((s1 == 0) == (s2 == 0), "success exactly when position and clock are computed");
  if (s1) return;
  for (int i = 0; i < 3; i++) vf_assert_near(p1[i], p2[i], 1e-2, "position for the time since ToE");
  vf_assert_near(c1, c2, 1e-12, "clock for the time since ToC");
}

// time of ephemeris of the broadcast week and second of week
template <SATELLITE_SYSTEM S> static void toe() {
  NavDataFrame f;
  f.system() = S;
  int64_t wk = vf_in("week", 0, 100000), sow = vf_in("sow", 0, 604799);
  f.data(21) = (double)wk;
  f.data(11) = (double)sow;
  auto d = f.toe2date<seconds>();
  // GPS and Galileo weeks of RINEX count from 1980-01-06, BeiDou weeks from 2006-01-01
  int64_t day0 = S == SATELLITE_SYSTEM::beidou ? 53736 : 44244;
  vf_assert(d.mjd().as_underlying_type() == day0 + 7 * wk + sow / 86400, "day of the time of ephemeris");
  vf_assert(d.sec().as_underlying_type() == sow % 86400, "second of day of the time of ephemeris");
}

// what the calculation of the orbit and the clock gives for a time (used by the
// callers' contracts; nothing but "a function of the arguments" is assumed)
extern "C" {
double vf_uf2_x(double, double); double vf_uf2_y(double, double); double vf_uf2_z(double, double); double vf_uf2_c(double, double);
int stub_kepler(const NavDataFrame *f, double t, double *p, double *E) {
  double s = (double)(int)f->system();
  p[0] = vf_uf2_x(t, s), p[1] = vf_uf2_y(t, s), p[2] = vf_uf2_z(t, s);
  if (E) *E = vf_uf2_x(p[0], p[1]);
  return 0;
}
int stub_clock(const NavDataFrame *f, double t, double &c, double *) { c = vf_uf2_c(t, (double)(int)f->system()); return 0; }
#ifdef VF_NATIVE
double vf_uf2_x(double a, double b) { return a + b; }
double vf_uf2_y(double a, double b) { return a + b; }
double vf_uf2_z(double a, double b) { return a + b; }
double vf_uf2_c(double a, double b) { return a + b; }
#endif
}

// @confirm
CONTRACT(orbit_gps) { position<SATELLITE_SYSTEM::gps>(); }
// @confirm
CONTRACT(orbit_galileo) { position<SATELLITE_SYSTEM::galileo>(); }
// @confirm
CONTRACT(orbit_beidou) { position<SATELLITE_SYSTEM::beidou>(); }
// @confirm
// @option lipschitz=1 @option canon=1 @option nosqrt=1 @option unroll=3
CONTRACT(anomaly_gps) { anomaly<SATELLITE_SYSTEM::gps>(); }
// @confirm
// @option lipschitz=1 @option canon=1 @option nosqrt=1 @option unroll=3
CONTRACT(anomaly_galileo) { anomaly<SATELLITE_SYSTEM::galileo>(); }
// @confirm
// @option lipschitz=1 @option canon=1 @option nosqrt=1 @option unroll=3
CONTRACT(anomaly_beidou) { anomaly<SATELLITE_SYSTEM::beidou>(); }
// @confirm
// @stub _ZNK4ngpt12NavDataFrame12kepler2stateILNS_16SATELLITE_SYSTEME0EEEidPdS3_=stub_kepler @stub _ZNK4ngpt12NavDataFrame8sv_clockILNS_16SATELLITE_SYSTEME0EEEidRdPd=stub_clock
CONTRACT(epoch_gps) { dispatch<SATELLITE_SYSTEM::gps, milliseconds>(); }
// @confirm
// @stub _ZNK4ngpt12NavDataFrame12kepler2stateILNS_16SATELLITE_SYSTEME3EEEidPdS3_=stub_kepler @stub _ZNK4ngpt12NavDataFrame8sv_clockILNS_16SATELLITE_SYSTEME3EEEidRdPd=stub_clock
CONTRACT(epoch_galileo) { dispatch<SATELLITE_SYSTEM::galileo, milliseconds>(); }
// @confirm
// @stub _ZNK4ngpt12NavDataFrame12kepler2stateILNS_16SATELLITE_SYSTEME4EEEidPdS3_=stub_kepler @stub _ZNK4ngpt12NavDataFrame8sv_clockILNS_16SATELLITE_SYSTEME4EEEidRdPd=stub_clock
CONTRACT(epoch_beidou) { dispatch<SATELLITE_SYSTEM::beidou, milliseconds>(); }
// @confirm
// @stub _ZNK4ngpt12NavDataFrame12kepler2stateILNS_16SATELLITE_SYSTEME0EEEidPdS3_=stub_kepler @stub _ZNK4ngpt12NavDataFrame8sv_clockILNS_16SATELLITE_SYSTEME0EEEidRdPd=stub_clock
CONTRACT(epoch_gps_seconds) { dispatch<SATELLITE_SYSTEM::gps, seconds>(); }
CONTRACT(toe_gps) { toe<SATELLITE_SYSTEM::gps>(); }
CONTRACT(toe_galileo) { toe<SATELLITE_SYSTEM::galileo>(); }
CONTRACT(toe_beidou) { toe<SATELLITE_SYSTEM::beidou>(); }

// broadcast orbits (e up to 0.03) within half a week of ToE are always computed
template <SATELLITE_SYSTEM S> static void converges() {
  NavDataFrame f;
  elements(f, S);
  f.data(8) = vf_real_hint("e", 0., .03);
  vf_assume(f.data(8) >= 0 && f.data(8) <= .03);
  vf_lemma_factor(f.data(8), .03);
  f.data(10) = vf_real_hint("sqrtA", 5000., 8000.);
  vf_assume(f.data(10) > 0);
  double tk, t = any_time(f, tk), p[3];
  vf_assert(f.kepler2state<S>(t, p) == 0, "the position is computed for every broadcast eccentricity");
}
// @confirm
// @option lipschitz=1 @option canon=1 @option nosqrt=1 @option unroll=14 @option linabs=1 @option feas_timeout=300
CONTRACT(converges_gps) { converges<SATELLITE_SYSTEM::gps>(); }
// @confirm
// @option lipschitz=1 @option canon=1 @option nosqrt=1 @option unroll=14 @option linabs=1 @option feas_timeout=300
CONTRACT(converges_galileo) { converges<SATELLITE_SYSTEM::galileo>(); }
// @confirm
// @option lipschitz=1 @option canon=1 @option nosqrt=1 @option unroll=14 @option linabs=1 @option feas_timeout=300
CONTRACT(converges_beidou) { converges<SATELLITE_SYSTEM::beidou>(); }
