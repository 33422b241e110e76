// property: P23
// bound: one to five satellites (any geometry), six to twelve satellites in given directions
// sources:
// flags: -I@/stubs/eigen
// option: opaquesqrt=1
// option: eqcanon=1
#include "vf.h"
#include <array>
#include <cassert>
#include <iostream>
#include <vector>
#include "gauss_newton.hpp"
using namespace ngpt;
typedef std::array<double, 4> Sat;
static const int N = 5;
struct Any {
  Kalman<5> f;
  double x[N], P[N][N], dt;
  std::vector<Sat> sv;
  std::vector<double> obs, w;
  int n;
  Any(std::initializer_list<double> &&l) : f(std::move(l)), n(0) {
    for (int i = 0; i < N; i++) x[i] = *(l.begin() + i);
  }
  // a filter behind any number of updates: any state, any symmetric covariance;
  // what earlier updates left elsewhere is arbitrary
  void later() {
    static const double size[] = {6e6, 6e6, 6e6, 1e3, 10};
    for (int i = 0; i < N; i++) f.state_(i) = x[i] = vf_real_hint("state", -size[i], size[i]);
    // (natively: a sum of squares, hence a covariance)
    double a[N][N];
    for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) a[i][j] = a[j][i] = vf_real_hint("covariance", -5, 5);
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++) {
        P[i][j] = a[i][j];
#ifdef VF_NATIVE
        P[i][j] = 0;
        for (int k = 0; k < N; k++) P[i][j] += a[i][k] * a[j][k];
#endif
        f.P_(i, j) = P[i][j];
      }
  }
  void stale(int before) {
    f.update_idx = vf_in("updates before", 1, 1 << 20);
    f.F_.coeffRef(3, 4) = vf_real_hint("earlier interval", 0, 100);
    f.nsats_ = before;
    f.H_.resize(f.nsats_, N);
    for (int i = 0; i < f.nsats_; i++) for (int k = 0; k < N; k++) f.H_(i, k) = vf_real_hint("earlier geometry", -1, 1);
  }
  // any measurements of m satellites, from any directions
  void measure(int m) {
    n = m;
    dt = vf_real_hint("interval", 0, 2);
    sv.clear(), obs.clear(), w.clear();
    for (int i = 0; i < n; i++) {
      sv.push_back(Sat{});
      for (int k = 0; k < 3; k++) sv[i][k] = x[k] + vf_real_hint("direction", -2e7, 2e7);
      sv[i][3] = vf_real_hint("satellite clock", -1e-3, 1e-3);
      obs.push_back(vf_real_hint("pseudorange", 1.9e7, 2.6e7));
      w.push_back(vf_real_hint("weight", 0, 100));
      vf_assume(w[i] >= 0);
    }
  }
  double h[12][N], p[12], Q[N][N], xp[N], S[12][12], T[12][12], G[N][12];
  // prediction of state and covariance, pseudoranges and partial derivatives
  void predict(bool weighted) {
    for (int i = 0; i < N; i++) xp[i] = x[i] + (i == 3 ? dt * x[4] : 0);
    double F[N][N] = {{1, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 1, dt}, {0, 0, 0, 0, 1}}, B[N][N];
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
      B[i][j] = 0;
      for (int k = 0; k < N; k++) B[i][j] += F[i][k] * P[k][j];
    }
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
      Q[i][j] = 0;
      for (int k = 0; k < N; k++) Q[i][j] += B[i][k] * F[j][k];
    }
    Q[3][3] += 0.0114, Q[3][4] += 0.0019, Q[4][3] += 0.0019, Q[4][4] += 0.0039;
    for (int i = 0; i < n; i++) {
      double d[3];
      for (int k = 0; k < 3; k++) d[k] = sv[i][k] - xp[k];
      double r = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
      vf_assume(r > 1e6);
      for (int k = 0; k < 3; k++) h[i][k] = -d[k] / r;
      h[i][3] = 1, h[i][4] = 0;
      p[i] = obs[i] + sv[i][3] * 299792458e0 - (r + xp[3]);
    }
    for (int i = 0; i < N; i++) for (int a = 0; a < n; a++) {
      G[i][a] = 0;
      for (int k = 0; k < N; k++) G[i][a] += Q[i][k] * h[a][k];
    }
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
      S[a][b] = a == b && weighted ? 100 + w[a] : 0;
      for (int k = 0; k < N; k++) S[a][b] += h[a][k] * G[k][b];
    }
#ifdef VF_NATIVE
    // (where rounding errors do not matter)
    Eigen::MatrixXd s(n, n);
    double diag = 1;
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) s(a, b) = S[a][b];
    for (int a = 0; a < n; a++) diag *= S[a][a];
    vf_assume(weighted || (S[0][0] > 1 && s.determinant() > 0.01 * diag));
    Eigen::MatrixXd t = s.inverse();
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) T[a][b] = t(a, b);
#endif
  }
  void check(bool weighted) {
    double K[N][12];
#ifndef VF_NATIVE
    vf_assert(Eigen::inversions == 1 && Eigen::inverted.r_ == n, "the residual covariance is inverted");
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
      vf_assert_eq(Eigen::inverted.a_[a * n + b], S[a][b], "residual covariance of the measurements");
      T[a][b] = Eigen::inverse_of.a_[a * n + b];
    }
#endif
    for (int i = 0; i < N; i++) for (int a = 0; a < n; a++) {
      K[i][a] = 0;
      for (int b = 0; b < n; b++) K[i][a] += G[i][b] * T[b][a];
    }
    for (int i = 0; i < N; i++) {
      double e = xp[i];
      for (int a = 0; a < n; a++) e += K[i][a] * p[a];
      vf_assert_near(f.state_(i), e, 1e-3, "state: prediction plus gain times innovation");
      for (int j = 0; j < N; j++) {
        double c = Q[i][j];
        for (int a = 0; a < n; a++) c -= K[i][a] * G[j][a];
        vf_assert_near(f.P_(i, j), c, 1e-5, "covariance: prediction less gain times covariance with the measurements");
      }
    }
  }
};
static void step(Any &k, int n, bool weighted, bool debug = false) {
  k.measure(n);
  k.predict(weighted);
#ifndef VF_NATIVE
  Eigen::inversions = 0;
#endif
  k.f.update(n, &k.obs, &k.sv, k.dt, weighted ? &k.w : nullptr, debug);
  k.check(weighted);
}
static void any(int n, bool weighted) {
  Any k({0e0, 0e0, 0e0, 0e0, 0e0});
  k.later();
  k.stale(n > 2 ? 2 : vf_concretize(vf_in("satellites before", 1, 3)));
  step(k, n, weighted);
}
// @confirm
CONTRACT(one) { any(1, true); }
// @confirm
CONTRACT(two) { any(2, true); }
// @confirm
CONTRACT(three) { any(3, true); }
// @confirm
CONTRACT(four) { any(4, true); }
// @confirm
CONTRACT(five) { any(5, true); }
// many satellites in given directions, any measurements
// @confirm
CONTRACT(many) {
  static const int dir[12][4] = {{1, 2, 2, 3}, {-2, 3, 6, 7}, {1, -4, 8, 9}, {4, 4, 7, 9}, {-2, -6, 9, 11}, {6, -7, 6, 11}, {3, 12, 4, 13}, {-14, 5, 2, 15}, {2, -10, 11, 15}, {-1, -12, 12, 17}, {12, 9, 8, 17}, {6, -18, 1, 19}};
  static const double x0[] = {4e6, 2e6, 4.5e6, 1e2, 5e0};
  Any k({0e0, 0e0, 0e0, 0e0, 0e0});
  for (int i = 0; i < N; i++) {
    k.f.state_(i) = k.x[i] = i < 4 ? x0[i] : vf_real_hint("clock drift", -10, 10);
    for (int j = 0; j < N; j++) k.f.P_(i, j) = k.P[i][j] = i == j ? 10 + 3 * i : (i + j) % 3 - 1;
  }
  k.f.update_idx = 3;
  k.n = 6 + vf_concretize(vf_in("satellites", 0, 6));
  k.dt = 0.5;
  for (int i = 0; i < k.n; i++) {
    k.sv.push_back(Sat{});
    for (int c = 0; c < 3; c++) k.sv[i][c] = x0[c] + dir[i][c] * (dir[i][3] < 8 ? 4e6 : 2e6);
    k.sv[i][3] = vf_real_hint("satellite clock", -1e-3, 1e-3);
    k.obs.push_back(vf_real_hint("pseudorange", 1.9e7, 2.6e7));
    k.w.push_back(10 * i);
  }
  k.predict(true);
#ifndef VF_NATIVE
  Eigen::eliminate = true;
#endif
  k.f.update(k.n, &k.obs, &k.sv, k.dt, &k.w);
  k.check(true);
}
// without weights there is no noise of the measurements
// @confirm
CONTRACT(no_weights) { any(vf_concretize(vf_in("satellites", 1, 2)), false); }
// the first update starts from the given state and standard deviations of 50 m
// @confirm
CONTRACT(first) {
  double x[N];
  static const double size[] = {6e6, 6e6, 6e6, 1e3, 10};
  for (int i = 0; i < N; i++) x[i] = vf_real_hint("state", -size[i], size[i]);
  Any k({x[0], x[1], x[2], x[3], x[4]});
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) k.P[i][j] = i != j ? 0 : i == 4 ? 30 : 2500;
  step(k, vf_concretize(vf_in("satellites", 1, 3)), true);
}
// one update after the other, whatever the first one gave; with output
// @confirm
CONTRACT(next) {
  Any k({1e6, 2e6, 3e6, 4e2, 5e0});
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) k.P[i][j] = i != j ? 0 : i == 4 ? 30 : 2500;
  step(k, 2, true);
  k.later();
  step(k, vf_concretize(vf_in("satellites", 1, 3)), vf_concretize(vf_in("weighted", 0, 1)), true);
  k.later();
  step(k, vf_concretize(vf_in("satellites", 1, 3)), true);
}
