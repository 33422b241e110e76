// Stand-in for the external date library ggdatetime, which is not part of the
// repository and not installed here.  It implements the interface the code
// uses with its mathematical meaning (assumed contract, see DESIGN.md): an
// instant is a modified Julian day plus an integer number of seconds,
// milliseconds, microseconds or nanoseconds of that day.
#ifndef VF_GGDATETIME_DTCALENDAR
#define VF_GGDATETIME_DTCALENDAR
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>
#include <tuple>
namespace ngpt {
constexpr double mjd0_jd = 2400000.5e0;

template <long F> struct vf_sec_t {
  static constexpr bool is_of_sec_type = true;
  typedef long underlying_type;
  static constexpr long max_in_day = 86400L * F;
  template <typename T> static constexpr T sec_factor() noexcept { return static_cast<T>(F); }
  long v_;
  constexpr explicit vf_sec_t(long v = 0) noexcept : v_(v) {}
  constexpr long as_underlying_type() const noexcept { return v_; }
  double to_fractional_seconds() const noexcept { return static_cast<double>(v_) / static_cast<double>(F); }
  constexpr bool operator==(vf_sec_t o) const noexcept { return v_ == o.v_; }
  constexpr bool operator!=(vf_sec_t o) const noexcept { return v_ != o.v_; }
  constexpr bool operator<(vf_sec_t o) const noexcept { return v_ < o.v_; }
  constexpr bool operator<=(vf_sec_t o) const noexcept { return v_ <= o.v_; }
  constexpr bool operator>(vf_sec_t o) const noexcept { return v_ > o.v_; }
  constexpr bool operator>=(vf_sec_t o) const noexcept { return v_ >= o.v_; }
};
typedef vf_sec_t<1L> seconds;
typedef vf_sec_t<1000L> milliseconds;
typedef vf_sec_t<1000000L> microseconds;
typedef vf_sec_t<1000000000L> nanoseconds;

template <typename S, typename T> constexpr T cast_to(S s) noexcept {
  return T(s.v_ * T::template sec_factor<long>() / S::template sec_factor<long>());
}

#define VF_INT_WRAP(name, I)                                                     \
  struct name {                                                                  \
    typedef I underlying_type;                                                   \
    I v_;                                                                        \
    constexpr explicit name(I v = 0) noexcept : v_(v) {}                         \
    constexpr I as_underlying_type() const noexcept { return v_; }               \
    constexpr bool operator==(name o) const noexcept { return v_ == o.v_; }      \
    constexpr bool operator!=(name o) const noexcept { return v_ != o.v_; }      \
  };
VF_INT_WRAP(year, int)
VF_INT_WRAP(month, int)
VF_INT_WRAP(hours, int)
VF_INT_WRAP(minutes, int)
VF_INT_WRAP(gps_week, long)

struct day_of_month {
  typedef int underlying_type;
  int v_;
  constexpr explicit day_of_month(int v = 0) noexcept : v_(v) {}
  constexpr int as_underlying_type() const noexcept { return v_; }
  static bool leap(int y) noexcept { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
  static int days_in(int y, int m) noexcept {
    return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
  }
  bool is_valid(year y, month m) const noexcept {
    return m.v_ >= 1 && m.v_ <= 12 && v_ >= 1 && v_ <= days_in(y.v_, m.v_);
  }
};

// civil calendar -> modified Julian day; a date that does not exist is rejected
#if defined(VF_UF_DATE) && !defined(VF_NATIVE)
// (in the verifier, if the harness asks for it, uninterpreted functions)
extern "C" {
int64_t vf_ufb3_mjd(int64_t y, int64_t m, int64_t d);
int64_t vf_ufb3_date_exists(int64_t y, int64_t m, int64_t d);
void vf_assume(bool);
}
inline long vf_cal2mjd(int y, int m, int d) {
  if (vf_ufb3_date_exists(y, m, d) == 0) throw std::out_of_range("vf_cal2mjd: date");
  long r = vf_ufb3_mjd(y, m, d);
  vf_assume(r >= -100000000L && r <= 100000000L);
  return r;
}
#else
inline long vf_cal2mjd(int y, int m, int d) {
  if (m < 1 || m > 12) throw std::out_of_range("vf_cal2mjd: month");
  if (d < 1 || d > day_of_month::days_in(y, m)) throw std::out_of_range("vf_cal2mjd: day");
  long my = (m - 14) / 12, iy = y + my;
  return (1461L * (iy + 4800L)) / 4L + (367L * (m - 2 - 12 * my)) / 12L - (3L * ((iy + 4900L) / 100L)) / 4L + d - 2432076L;
}
#endif

struct modified_julian_day {
  typedef long underlying_type;
  long v_;
  constexpr explicit modified_julian_day(long v = 0) noexcept : v_(v) {}
  modified_julian_day(year y, month m, day_of_month d) : v_(vf_cal2mjd(y.v_, m.v_, d.v_)) {}
  constexpr long as_underlying_type() const noexcept { return v_; }
  constexpr bool operator==(modified_julian_day o) const noexcept { return v_ == o.v_; }
  constexpr bool operator!=(modified_julian_day o) const noexcept { return v_ != o.v_; }
  constexpr bool operator<(modified_julian_day o) const noexcept { return v_ < o.v_; }
  constexpr bool operator>(modified_julian_day o) const noexcept { return v_ > o.v_; }
  constexpr modified_julian_day operator-(modified_julian_day o) const noexcept { return modified_julian_day(v_ - o.v_); }
  constexpr modified_julian_day operator+(modified_julian_day o) const noexcept { return modified_julian_day(v_ + o.v_); }
};

constexpr long VF_GPS_MJD0 = 44244L; // 1980-01-06

template <typename S> class datetime {
public:
  modified_julian_day mjd_;
  S sec_;
  constexpr explicit datetime() noexcept : mjd_(VF_GPS_MJD0), sec_(0) {}
  constexpr datetime(modified_julian_day m, S s) noexcept : mjd_(m), sec_(s) {}
  datetime(year y, month m, day_of_month d, S s = S(0)) : mjd_(y, m, d), sec_(s) { normalize(); }
  datetime(year y, month m, day_of_month d, hours h, minutes mn, S s = S(0)) : mjd_(y, m, d), sec_(0) {
    sec_ = S((h.v_ * 3600L + mn.v_ * 60L) * S::template sec_factor<long>() + s.v_);
    normalize();
  }
  // GPS week and second of week
  template <typename T> constexpr datetime(gps_week w, T sow) noexcept : mjd_(VF_GPS_MJD0 + w.v_ * 7L), sec_(ngpt::cast_to<T, S>(sow)) { normalize(); }
  constexpr void normalize() noexcept {
    const long D = S::max_in_day;
    if (sec_.v_ >= 0 && sec_.v_ < D) return;
    long d = sec_.v_ / D, r = sec_.v_ % D;
    if (r < 0) { r += D; --d; }
    mjd_ = modified_julian_day(mjd_.v_ + d);
    sec_ = S(r);
  }
  constexpr modified_julian_day mjd() const noexcept { return mjd_; }
  constexpr S sec() const noexcept { return sec_; }
  template <typename T> constexpr void add_seconds(T t) noexcept { sec_ = S(sec_.v_ + ngpt::cast_to<T, S>(t).v_); normalize(); }
  template <typename T> constexpr void remove_seconds(T t) noexcept { sec_ = S(sec_.v_ - ngpt::cast_to<T, S>(t).v_); normalize(); }
  template <typename T> constexpr datetime<T> cast_to() const noexcept { return datetime<T>(mjd_, ngpt::cast_to<S, T>(sec_)); }
  gps_week as_gps_wsow(S &sow) const noexcept {
    long days = mjd_.v_ - VF_GPS_MJD0;
    sow = S((days % 7L) * S::max_in_day + sec_.v_);
    return gps_week(days / 7L);
  }
  gps_week as_gps_wsow(long &sow) const noexcept {
    long days = mjd_.v_ - VF_GPS_MJD0;
    sow = (days % 7L) * 86400L + sec_.v_ / S::template sec_factor<long>();
    return gps_week(days / 7L);
  }
  double as_mjd() const noexcept { return static_cast<double>(mjd_.v_) + static_cast<double>(sec_.v_) / static_cast<double>(S::max_in_day); }
  static constexpr datetime max() noexcept { return datetime(modified_julian_day(1000000000L), S(0)); }
  static constexpr datetime min() noexcept { return datetime(modified_julian_day(-1000000000L), S(0)); }
};

// order of two instants of any resolution
template <typename A, typename B> constexpr bool vf_less(const datetime<A> &a, const datetime<B> &b) noexcept {
  constexpr long fa = A::template sec_factor<long>(), fb = B::template sec_factor<long>();
  const long x = fa >= fb ? a.sec_.v_ : a.sec_.v_ * (fb / fa), y = fb >= fa ? b.sec_.v_ : b.sec_.v_ * (fa / fb);
  return (a.mjd_.v_ < b.mjd_.v_) | ((a.mjd_.v_ == b.mjd_.v_) & (x < y));
}
template <typename A, typename B> constexpr bool vf_equal(const datetime<A> &a, const datetime<B> &b) noexcept {
  constexpr long fa = A::template sec_factor<long>(), fb = B::template sec_factor<long>();
  const long x = fa >= fb ? a.sec_.v_ : a.sec_.v_ * (fb / fa), y = fb >= fa ? b.sec_.v_ : b.sec_.v_ * (fa / fb);
  return (a.mjd_.v_ == b.mjd_.v_) & (x == y);
}
#define VF_CMP(op, e) template <typename A, typename B> constexpr bool operator op(const datetime<A> &a, const datetime<B> &b) noexcept { return e; }
VF_CMP(==, vf_equal(a, b)) VF_CMP(!=, !vf_equal(a, b)) VF_CMP(<, vf_less(a, b)) VF_CMP(<=, !vf_less(b, a)) VF_CMP(>, vf_less(b, a)) VF_CMP(>=, !vf_less(a, b))
#undef VF_CMP

// a - b in the resolution of the second argument
template <typename A, typename B> constexpr B delta_sec(const datetime<A> &a, const datetime<B> &b) noexcept {
  return B((a.mjd_.v_ - b.mjd_.v_) * B::max_in_day + (cast_to<A, B>(a.sec_).v_ - b.sec_.v_));
}
} // namespace ngpt
#endif
