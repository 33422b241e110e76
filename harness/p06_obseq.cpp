// property: P06
// bound: equality of observables: up to three terms each
// sources: satsys.cpp gnssobs.cpp gnssobsrv.cpp
#include "vf.h"
#include "obsvec.h"
using namespace ngpt;

namespace {
struct Term { int8_t sys; int8_t type; int32_t band; int8_t attr; double coef; };
Term any_term() {
  Term t;
  t.sys = vf_i8("system");
  t.type = vf_i8("type");
  t.band = vf_i32("band");
  t.attr = vf_i8("attr");
  t.coef = vf_real("coef");
  vf_assume(t.sys >= 0 && t.sys < 8 && t.type >= 0 && t.type < 7);
  return t;
}
bool same(const Term &a, const Term &b) {
  return (a.sys == b.sys) & (a.type == b.type) & (a.band == b.band) & (a.attr == b.attr) & (a.coef == b.coef);
}
GnssRawObservable raw(const Term &t) {
  return GnssRawObservable(static_cast<SATELLITE_SYSTEM>(t.sys), ObservationCode(static_cast<OBSERVABLE_TYPE>(t.type), t.band, ObservationAttribute(t.attr)));
}
GnssObservable make(const Term *t, int n) {
  GnssObservable o(raw(t[0]), t[0].coef);
  for (int i = 1; i < n; i++) o.add(raw(t[i]), t[i].coef);
  return o;
}
// equality as multisets: every term occurs equally often on both sides
bool multiset_equal(const Term *a, int n, const Term *b, int m) {
  if (n != m) return false;
  bool r = true;
  for (int i = 0; i < n; i++) {
    int ca = 0, cb = 0;
    for (int j = 0; j < n; j++) ca += same(a[i], a[j]);
    for (int j = 0; j < m; j++) cb += same(a[i], b[j]);
    r = r & (ca == cb);
  }
  return r;
}
} // namespace

// Raw observables: equality is equality of system and code.
CONTRACT(rawobs_equality) {
  Term a = any_term(), b = any_term();
  GnssRawObservable x = raw(a), y = raw(b);
  bool eq = a.sys == b.sys && a.type == b.type && a.band == b.band && a.attr == b.attr;
  vf_assert((x == y) == eq, "equal iff system and code are equal");
  vf_assert((x != y) == !eq, "different iff not equal");
  vf_assert((y == x) == eq, "equality is symmetric");
  vf_assert(x.satsys() == static_cast<SATELLITE_SYSTEM>(a.sys) && x.band() == a.band && x.code() == raw(a).code(), "components are the constructor arguments");
  const GnssRawObservable &cx = x;
  vf_assert(cx.get<0>() == x.satsys() && cx.get<1>() == x.code(), "structured access");
}

// Terms: equality includes the coefficient.
CONTRACT(obspart_equality) {
  Term a = any_term(), b = any_term();
  __ObsPart x(raw(a), a.coef), y(raw(b).satsys(), raw(b).code(), b.coef);
  vf_assert((x == y) == same(a, b), "equal iff observable and coefficient are equal");
  vf_assert((x != y) == !same(a, b), "different iff not equal");
  vf_assert(x.type() == raw(a), "type is the raw observable");
}

// Every pair of observables with one or two terms each.
// @option unroll=200
CONTRACT(obs_equality_2) {
  Term a[2] = {any_term(), any_term()}, b[2] = {any_term(), any_term()};
  int n = vf_bool("a has two terms") ? 2 : 1, m = vf_bool("b has two terms") ? 2 : 1;
  GnssObservable x = make(a, n), y = make(b, m);
  bool want = multiset_equal(a, n, b, m);
  vf_assert((x == y) == want, "equal iff the same terms with the same multiplicity (2)");
  vf_assert((y == x) == want, "equality is symmetric (2)");
  vf_assert((x != y) == !want, "different iff not equal (2)");
  vf_assert(x == x, "an observable equals itself (2)");
}

// Every pair of observables with three terms each (terms abstracted by their
// coefficient and band; the other components are covered with two terms).
CONTRACT(obs_equality_3) {
  Term a[3], b[3];
  for (int i = 0; i < 3; i++) { a[i] = Term{0, 0, vf_i32("band"), 'C', 1.}; b[i] = Term{0, 0, vf_i32("band"), 'C', 1.}; }
  GnssObservable x = make(a, 3), y = make(b, 3);
  bool want = multiset_equal(a, 3, b, 3);
  vf_assert((x == y) == want, "equal iff the same terms with the same multiplicity (3)");
  vf_assert((y == x) == want, "equality is symmetric (3)");
}

// Reordering never changes equality: an observable equals each of its rotations
// and reversals.
CONTRACT(obs_equality_reorder) {
  Term a[3] = {any_term(), any_term(), any_term()};
  Term r[3] = {a[2], a[0], a[1]}, s[3] = {a[2], a[1], a[0]};
  GnssObservable x = make(a, 3);
  vf_assert(x == make(r, 3), "rotated terms compare equal");
  vf_assert(make(s, 3) == x, "reversed terms compare equal");
}

// Mixed-system detection over any number of terms.
CONTRACT(obs_mixed) {
  AnyObservable o("terms");
  bool m = o.o.is_of_mixed_satsys();
  if (o.n > 0) {
    int64_t i = vf_i64("i"), j = vf_i64("j");
    vf_assume(i >= 0 && (std::size_t)i < o.n && j >= 0 && (std::size_t)j < o.n);
    if (!m) vf_assert(o.p[i].__type.satsys() == o.p[j].__type.satsys(), "not mixed: any two terms share the system");
  }
  if (m) {
    bool differ = false;
    for (std::size_t k = 0; k < o.n; k++)
      if (o.p[k].__type.satsys() != o.p[0].__type.satsys()) { differ = true; break; }
    vf_assert(differ, "mixed: some term differs from the first");
  }
}

// Mixed-system detection through the constructors.
CONTRACT(obs_mixed_small) {
  Term a[3] = {any_term(), any_term(), any_term()};
  vf_assert(!make(a, 1).is_of_mixed_satsys(), "a single term is never mixed");
  vf_assert(make(a, 2).is_of_mixed_satsys() == (a[0].sys != a[1].sys), "two terms are mixed iff their systems differ");
  vf_assert(make(a, 3).is_of_mixed_satsys() == (a[0].sys != a[1].sys || a[0].sys != a[2].sys), "three terms are mixed iff some system differs");
}
