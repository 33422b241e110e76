// helpers: an observable whose terms are symbolic
#ifndef OBSVEC_H
#define OBSVEC_H
#include "gnssobsrv.hpp"
#include "vf.h"
#include <cstddef>
#include <cstdio>
// An observable with an arbitrary number n of arbitrary terms: the term array
// is an input, installed through the reference returned by the public accessor
// underlying_vector().
struct AnyObservable {
  ngpt::GnssObservable o;
  ngpt::__ObsPart *p, *b0, *e0, *c0;
  std::size_t n;
  explicit AnyObservable(const char *name)
      : o(ngpt::SATELLITE_SYSTEM::gps, ngpt::ObservationCode(ngpt::OBSERVABLE_TYPE::any, 1)) {
    using T = ngpt::__ObsPart;
    int64_t k = vf_i64("terms");
    vf_assume(k >= 0 && k <= 100000);
    n = (std::size_t)k;
    char spec[96];
    using R = ngpt::GnssRawObservable;
    using C = ngpt::ObservationCode;
    std::snprintf(spec, sizeof spec, "%d:1:int,%d:1:int,%d:4:int,%d:1:int,%d:8:real", (int)(offsetof(T, __type) + offsetof(R, __sys)),
                  (int)(offsetof(T, __type) + offsetof(R, __code) + offsetof(C, __type)),
                  (int)(offsetof(T, __type) + offsetof(R, __code) + offsetof(C, __band)),
                  (int)(offsetof(T, __type) + offsetof(R, __code) + offsetof(C, __attr)), (int)offsetof(T, __coef));
    p = (T *)vf_vec(name, n, sizeof(T), spec);
    auto &v = o.underlying_vector();
    b0 = v._M_impl._M_start; e0 = v._M_impl._M_finish; c0 = v._M_impl._M_end_of_storage;
    v._M_impl._M_start = p;
    v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n;
  }
  ~AnyObservable() {
    auto &v = o.underlying_vector();
    v._M_impl._M_start = b0; v._M_impl._M_finish = e0; v._M_impl._M_end_of_storage = c0;
  }
};
#endif
