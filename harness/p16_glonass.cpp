// property: P16
// sources: satsys.cpp glonav.cpp
// flags: -I@/stubs
// fixup: constexpr double F_CLOCK=>const double F_CLOCK
#include "anynav.h"
#include <cmath>
using namespace ngpt;

extern void glo_state_deriv(const double *x, const double *acc, double *xdot) noexcept;

// equations of motion of the GLONASS ICD (edition 5.1, appendix J.2, simplified
// algorithm) in the rotating PZ-90 frame
static void motion(const double *x, const double *acc, double *d) {
  const double mi = 398600.4418e9, ae = 6378136e0, j2 = 1082625.75e-9, w = 7.2921151467e-5;
  const double r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2], r = std::sqrt(r2);
  const double m = mi / (r2 * r), q = 1.5e0 * j2 * mi * ae * ae / (r2 * r2 * r), z2 = 5e0 * x[2] * x[2] / r2;
  d[0] = x[3], d[1] = x[4], d[2] = x[5];
  d[3] = -m * x[0] - q * x[0] * (1e0 - z2) + w * w * x[0] + 2e0 * w * x[4] + acc[0];
  d[4] = -m * x[1] - q * x[1] * (1e0 - z2) + w * w * x[1] - 2e0 * w * x[3] + acc[1];
  d[5] = -m * x[2] - q * x[2] * (3e0 - z2) + acc[2];
}

// @confirm
CONTRACT(equations_of_motion) {
  double x[6], acc[3], d[6], e[6];
  for (int i = 0; i < 3; i++) x[i] = vf_real_hint("position", 5e6, 2.5e7);
  for (int i = 3; i < 6; i++) x[i] = vf_real_hint("velocity", -4e3, 4e3);
  for (int i = 0; i < 3; i++) acc[i] = vf_real_hint("acceleration", -1e-5, 1e-5);
  vf_assume(x[0] * x[0] + x[1] * x[1] + x[2] * x[2] > 0);
  glo_state_deriv(x, acc, d);
  motion(x, acc, e);
  for (int i = 0; i < 3; i++) vf_assert_near(d[i], e[i], 1e-9, "the derivative of the position is the velocity");
  for (int i = 3; i < 6; i++) vf_assert_near(d[i], e[i], 1e-9, "acceleration of the simplified GLONASS model");
}

// the derivative as an arbitrary function of state and acceleration (proved
// above to be the model's)
extern "C" {
double vf_uf9_ax(double, double, double, double, double, double, double, double, double);
double vf_uf9_ay(double, double, double, double, double, double, double, double, double);
double vf_uf9_az(double, double, double, double, double, double, double, double, double);
void stub_deriv(const double *x, const double *a, double *d) {
  double u = vf_uf9_ax(x[0], x[1], x[2], x[3], x[4], x[5], a[0], a[1], a[2]);
  double v = vf_uf9_ay(x[0], x[1], x[2], x[3], x[4], x[5], a[0], a[1], a[2]);
  double w = vf_uf9_az(x[0], x[1], x[2], x[3], x[4], x[5], a[0], a[1], a[2]);
  d[0] = x[3], d[1] = x[4], d[2] = x[5], d[3] = u, d[4] = v, d[5] = w;
}
#ifdef VF_NATIVE
double vf_uf9_ax(double, double, double, double, double, double, double, double, double) { return 0; }
double vf_uf9_ay(double, double, double, double, double, double, double, double, double) { return 0; }
double vf_uf9_az(double, double, double, double, double, double, double, double, double) { return 0; }
#endif
}
static void deriv(const double *x, const double *a, double *d) {
#ifdef VF_NATIVE
  motion(x, a, d);
#else
  stub_deriv(x, a, d);
#endif
}
static void rk4(double *y, const double *acc, double h) {
  double k1[6], k2[6], k3[6], k4[6], t[6];
  deriv(y, acc, k1);
  for (int i = 0; i < 6; i++) t[i] = y[i] + h / 2 * k1[i];
  deriv(t, acc, k2);
  for (int i = 0; i < 6; i++) t[i] = y[i] + h / 2 * k2[i];
  deriv(t, acc, k3);
  for (int i = 0; i < 6; i++) t[i] = y[i] + h * k3[i];
  deriv(t, acc, k4);
  for (int i = 0; i < 6; i++) y[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
}

static void glonass(NavDataFrame &f, bool zero_velocity_excluded = true) {
  f.system() = SATELLITE_SYSTEM::glonass;
  any_epochs(f);
  for (int i = 0; i < 31; i++) f.data(i) = vf_real_hint("data", -1e-4, 1e-4);
  const int p[3] = {3, 7, 11};
  // a GLONASS orbit natively: |r| near 25500 km, |v| near 3.9 km/s
  for (int i = 0; i < 3; i++) {
    f.data(p[i]) = vf_real_hint("position", 1.2e7, 1.6e7);
    f.data(p[i] + 1) = vf_real_hint("velocity", -3e3, 3e3);
    f.data(p[i] + 2) = vf_real_hint("acceleration", -1e-5, 1e-5);
  }
}

// state after full_steps minutes and rest seconds forwards (sign 1) or backwards
static void orbit(int sign, int lo, int hi) {
  NavDataFrame f;
  glonass(f);
  int n = (int)vf_concretize(vf_in("whole_minutes", lo, hi));
  double rest = vf_real_hint("seconds", .1, 59.9);
  if (vf_bool("exact_minute")) rest = 0;
  else vf_assume(rest > 1e-6 && rest < 60 && n < 15);
  double t = (double)f.toe__.sec().as_underlying_type() + sign * (60e0 * n + rest), s[6] = {0, 0, 0, 0, 0, 0}, y[6];
  int st = f.glo_ecef(t, s);
  vf_assert(st == 0, "the state is computed within 15 minutes of ToE");
  const double acc[3] = {f.data(5), f.data(9), f.data(13)};
  for (int i = 0; i < 3; i++) y[i] = f.data(3 + 4 * i), y[3 + i] = f.data(4 + 4 * i);
  for (int i = 0; i < n; i++) rk4(y, acc, sign * 60e0);
  if (rest > 0) rk4(y, acc, sign * rest);
  for (int i = 0; i < 3; i++) vf_assert_near(s[i], y[i], 5e-2, "position integrated from ToE to the requested time");
  for (int i = 3; i < 6; i++) vf_assert_near(s[i], y[i], 1e-3, "velocity integrated from ToE to the requested time");
}
// @confirm
// @stub _Z15glo_state_derivPKdS0_Pd=stub_deriv
// @option canon=1
CONTRACT(orbit_forward_0_4) { orbit(1, 0, 4); }
// @confirm
// @stub _Z15glo_state_derivPKdS0_Pd=stub_deriv
// @option canon=1
CONTRACT(orbit_forward_5_8) { orbit(1, 5, 8); }
// @confirm
// @stub _Z15glo_state_derivPKdS0_Pd=stub_deriv
// @option canon=1
CONTRACT(orbit_forward_9_11) { orbit(1, 9, 11); }
// @confirm
// @stub _Z15glo_state_derivPKdS0_Pd=stub_deriv
// @option canon=1
CONTRACT(orbit_forward_12_13) { orbit(1, 12, 13); }
// @confirm
// @stub _Z15glo_state_derivPKdS0_Pd=stub_deriv
// @option canon=1
CONTRACT(orbit_forward_14_15) { orbit(1, 14, 15); }
// @confirm
// @stub _Z15glo_state_derivPKdS0_Pd=stub_deriv
// @option canon=1
CONTRACT(orbit_backward_0_4) { orbit(-1, 0, 4); }
// @confirm
// @stub _Z15glo_state_derivPKdS0_Pd=stub_deriv
// @option canon=1
CONTRACT(orbit_backward_5_8) { orbit(-1, 5, 8); }
// @confirm
// @stub _Z15glo_state_derivPKdS0_Pd=stub_deriv
// @option canon=1
CONTRACT(orbit_backward_9_11) { orbit(-1, 9, 11); }
// @confirm
// @stub _Z15glo_state_derivPKdS0_Pd=stub_deriv
// @option canon=1
CONTRACT(orbit_backward_12_13) { orbit(-1, 12, 13); }
// @confirm
// @stub _Z15glo_state_derivPKdS0_Pd=stub_deriv
// @option canon=1
CONTRACT(orbit_backward_14_15) { orbit(-1, 14, 15); }

// clock correction of the record
CONTRACT(clock) {
  NavDataFrame f;
  glonass(f);
  double dt = vf_real_hint("seconds_from_toe", -43000., 43000.), c = 0;
  vf_assume(dt > -43200 && dt < 43200);
  int64_t days = vf_concretize(vf_in("days", -1, 1));
  int st = f.glo_clock((double)f.toe__.sec().as_underlying_type() + dt + 86400e0 * days, c);
  vf_assert(st == 0, "the clock correction is computed");
  vf_assert_near(c, f.data(0) + f.data(1) * dt, 1e-9, "clock bias plus frequency bias times the time since ToE");
}

// epoch to seconds since the time of ephemeris
extern "C" {
double vf_uf2_s(double, double);
double vf_uf2_c(double, double);
int stub_ecef(const NavDataFrame *f, double t, double *s) {
  for (int i = 0; i < 6; i++) s[i] = vf_uf2_s(t, (double)i);
  return 0;
}
int stub_gclock(const NavDataFrame *f, double t, double &c) { c = vf_uf2_c(t, 0e0); return 0; }
#ifdef VF_NATIVE
double vf_uf2_s(double a, double b) { return a + b; }
double vf_uf2_c(double a, double b) { return a + b; }
#endif
}
template <typename T> static void dispatch() {
  NavDataFrame f;
  glonass(f);
  int64_t days = vf_concretize(vf_in("epoch_day_minus_toe_day", -1, 1));
  int64_t tick = vf_in("ticks_of_day", 0, T::max_in_day - 1);
  datetime<T> t(modified_julian_day(f.toe__.mjd().as_underlying_type() + days), T(tick));
  double sec = (double)tick / T::template sec_factor<double>() + 86400e0 * (double)days;
  double s1[6] = {0, 0, 0, 0, 0, 0}, s2[6] = {0, 0, 0, 0, 0, 0}, c1 = 0, c2 = 0;
  int r1 = f.stateNclock(t, s1, c1);
  int r2 = f.glo_ecef(sec, s2);
  if (!r2) r2 = f.glo_clock(sec, c2);
  vf_assert((r1 == 0) == (r2 == 0), "success exactly when state and clock are computed");
  if (r1) return;
  for (int i = 0; i < 6; i++) vf_assert_near(s1[i], s2[i], 1e-3, "state for the time since ToE");
  vf_assert_near(c1, c2, 1e-12, "clock for the time since ToE");
}
// @confirm
// @stub _ZNK4ngpt12NavDataFrame8glo_ecefEdPd=stub_ecef @stub _ZNK4ngpt12NavDataFrame9glo_clockEdRd=stub_gclock
CONTRACT(epoch_milliseconds) { dispatch<milliseconds>(); }
// @confirm
// @stub _ZNK4ngpt12NavDataFrame8glo_ecefEdPd=stub_ecef @stub _ZNK4ngpt12NavDataFrame9glo_clockEdRd=stub_gclock
CONTRACT(epoch_seconds) { dispatch<seconds>(); }

// the time of ephemeris is the one of its second of week that lies next to the
// time of clock (the record is transmitted within hours of it)
// @option divk=1
CONTRACT(time_of_ephemeris) {
  NavDataFrame f;
  f.system() = SATELLITE_SYSTEM::glonass;
  int64_t week = vf_in("week", 0, 9999), dow = vf_concretize(vf_in("toc_day_of_week", 0, 6)), sod = vf_in("toc_second_of_day", 0, 86399);
  int64_t mjd = 44244 + 7 * week + dow;
  f.toc__ = datetime<seconds>(modified_julian_day(mjd), seconds(sod));
  // second of the week (weeks start on Sunday) of ToE
  int64_t days = vf_concretize(vf_in("toe_day_minus_toc_day", -1, 1)), sod2 = vf_in("toe_second_of_day", 0, 86399);
  int64_t sow = ((dow + days + 7) % 7) * 86400 + sod2;
  f.data(2) = (double)sow;
  f.data(6) = vf_bool("unhealthy") ? 1 : 0;
  auto d = f.toe2date<seconds>();
  vf_assert(d.mjd().as_underlying_type() == mjd + days, "the time of ephemeris is the date next to ToC with its second of week");
  vf_assert(d.sec().as_underlying_type() == sod2, "second of day of the time of ephemeris");
}
