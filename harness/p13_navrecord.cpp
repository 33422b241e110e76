// property: P13
// bound: one record per file (records are read one at a time)
// sources: navrnx.cpp satsys.cpp nvarstr.cpp gpsnav.cpp galnav.cpp bdsnav.cpp glonav.cpp
// model: stubs/ifstream.cpp
// flags: -I@/stubs
// fixup: constexpr double F_CLOCK=>const double F_CLOCK
#include "vf.h"
#include "vfile.h"
#include "ggdatetime/datetime_read.hpp"
#include "navrnx.hpp"
#include <cmath>
using namespace ngpt;
typedef SATELLITE_SYSTEM S;

static void number(char *p, char ex) { // [ -]d.ddddddddddddE[+-]dd, 19 columns
  vf_chars(p, 1, " -", "sign");
  vf_chars(p + 1, 1, "0123456789", "d");
  p[2] = '.';
  vf_chars(p + 3, 12, "0123456789", "d");
  p[15] = ex;
  vf_chars(p + 16, 1, "+-", "esign");
  vf_chars(p + 17, 2, "0123456789", "e");
}
static double value(const char *p) {
  char b[20];
  std::memcpy(b, p, 19);
  b[15] = 'E';
  b[19] = 0;
  return std::strtod(b, nullptr);
}
static char text_[9][81];
static int nlines(S s) { return s == S::glonass || s == S::sbas ? 4 : 8; }
static int nlast(S s) { return s == S::glonass || s == S::sbas ? 4 : s == S::galileo || s == S::irnss ? 1 : 2; }
// numbers on line k that are not spare columns
static bool used(S s, int k, int j) {
  if (k == 0) return j > 0;
  if (k == nlines(s) - 1) return j < nlast(s);
  if (k == 5 && s == S::galileo) return j < 3;
  if (k == 5 && (s == S::beidou || s == S::irnss)) return j == 0 || j == 2;
  if (k == 6 && s == S::irnss) return j < 3;
  return true;
}
// the text of a well-formed record
static void record(S s, char ex) {
  vf_begin();
  const char digits[] = "0123456789";
  for (int k = 0; k < nlines(s); k++) {
    char *t = text_[k];
    std::memset(t, ' ', 80);
    t[80] = 0;
    if (!k) {
      t[0] = satsys_to_char(s);
      vf_chars(t + 1, 2, digits, "prn");
      vf_chars(t + 4, 4, digits, "year");
      vf_chars(t + 9, 2, digits, "month");
      vf_chars(t + 12, 2, digits, "day");
      vf_chars(t + 15, 2, digits, "hour");
      vf_chars(t + 18, 2, digits, "minute");
      vf_chars(t + 21, 2, digits, "second");
      vf_assume((t[1] != '0') | (t[2] != '0'));
    }
    for (int j = !k; j < 4; j++)
      if (used(s, k, j)) number(t + 4 + 19 * j, ex);
    vf_line(t, 80);
  }
}
static int index_of(int k, int j) { return k ? 3 + 4 * (k - 1) + j : j - 1; }
static double want(S s, int k, int j) {
  double v = value(text_[k] + 4 + 19 * j);
  return s == S::glonass && k && j < 3 ? v * 1e3 : v;
}
// the date of the first line exists; the time of ephemeris is a time of the week
static bool date_ok() {
  const char *t = text_[0];
  auto two = [&](int i) { return (t[i] - '0') * 10 + (t[i + 1] - '0'); };
  return vf_date_exists(two(4) * 100 + two(6), two(9), two(12));
}
static bool dated(S s) { return s == S::gps || s == S::galileo || s == S::beidou || s == S::glonass; }
static void valid_ephemeris_time(S s) {
  if (!dated(s)) return;
  double sow = s == S::glonass ? value(text_[0] + 4 + 57) : value(text_[3] + 4);
  vf_assume(sow >= 0);
  vf_assume(sow < 604800);
  vf_assume(sow == std::floor(sow));
  if (s != S::glonass) {
    double w = value(text_[5] + 4 + 38);
    vf_assume(w >= 0);
    vf_assume(w < 100000);
  } else {
    double h = value(text_[1] + 4 + 57);
    vf_assume((h >= 0) & (h < 100000));
  }
}
// native runs: make random text denote an existing date and a time of the week
static void whole(char *p, int digits, char first) { // a whole number of so many digits
  p[0] = ' ';
  if (p[1] > first) p[1] = first;
  std::memset(p + 2 + digits, '0', 13 - digits);
  p[16] = '+', p[17] = '0', p[18] = '0' + digits - 1;
}
static void plausible(S s) {
  if (vf_symbolic()) return;
  char *t = text_[0];
  if (!date_ok()) t[9] = '0', t[10] = t[10] == '0' ? '1' : t[10], t[12] = '0' + (t[12] & 1), t[13] = t[13] == '0' ? '1' : t[13];
  if (!dated(s)) return;
  whole(s == S::glonass ? text_[0] + 4 + 57 : text_[3] + 4, 6, '5');
  if (s != S::glonass) whole(text_[5] + 4 + 38, 4, '4');
  else whole(text_[1] + 4 + 57, 1, '4');
}
static void any_frame(NavDataFrame &f) {
  f.sys__ = S::gps;
  f.prn__ = vf_i32("old_prn");
  f.toc__ = f.toe__ = datetime<seconds>(modified_julian_day(vf_in("old_day", 0, 99999)), seconds(0));
  for (int i = 0; i < 31; i++) f.data__[i] = vf_real("old");
}
static int read(NavDataFrame &f) {
  errno = vf_i32("stale_errno");
  std::ifstream in(vf_file());
  return f.set_from_rnx3(in);
}
static void well_formed(S s, char ex) {
  record(s, ex);
  plausible(s);
  valid_ephemeris_time(s);
  vf_assume(date_ok());
  NavDataFrame f;
  any_frame(f);
  vf_assert(read(f) == 0, "a well-formed record is accepted");
  vf_assert(f.sys__ == s, "satellite system of column 1");
  vf_assert(f.prn__ == (text_[0][1] - '0') * 10 + (text_[0][2] - '0'), "satellite number of columns 2-3");
  datetime<seconds> t = strptime_ymd_hms<seconds>(text_[0] + 4);
  vf_assert(f.toc__ == t, "time of clock of columns 5-23");
  for (int k = 0; k < nlines(s); k++)
    for (int j = !k; j < 4; j++)
      if (used(s, k, j)) vf_assert_eq(f.data__[index_of(k, j)], want(s, k, j), "value of its own columns, in order");
  vf_assert(!dated(s) || f.toe__ == f.toe2date<seconds>(), "time of ephemeris is set from the record");
}
CONTRACT(record_gps) { well_formed(S::gps, 'D'); }
CONTRACT(record_galileo) { well_formed(S::galileo, 'd'); }
CONTRACT(record_beidou) { well_formed(S::beidou, 'E'); }
// GLONASS: the reference time is P16's contract (glo_toe): defined for whole seconds of a week
extern "C" datetime<seconds> stub_glo_toe(const NavDataFrame *f) {
  vf_assert(f->data__[2] >= 0, "precondition: the message frame time is not negative");
  vf_assert(f->data__[2] <= 604800, "precondition: the message frame time lies within the week");
  vf_assert(f->data__[2] == std::floor(f->data__[2]), "precondition: the message frame time is in whole seconds");
  return datetime<seconds>(f->toc__.mjd(), seconds(77));
}
// @stub _ZNK4ngpt12NavDataFrame12glo_toe2dateINS_8vf_sec_tILl1EEEEENS_8datetimeIT_EEv=stub_glo_toe
CONTRACT(record_glonass) { well_formed(S::glonass, 'D'); }
CONTRACT(record_qzss) { well_formed(S::qzss, 'e'); }
CONTRACT(record_irnss) { well_formed(S::irnss, 'D'); }
CONTRACT(record_sbas) { well_formed(S::sbas, 'D'); }

// ---- damaged records: rejected by a status, without crash, hang or stale values
static void rejected() {
  NavDataFrame f;
  any_frame(f);
  vf_assert(read(f) != 0, "a damaged record is rejected");
}
// columns a line needs
static int needed(S s, int k) {
  int n = 4;
  while (n > 0 && !used(s, k, n - 1)) n--;
  return 4 + 19 * n;
}
// line k is cut after c columns; what follows it is lost too, or not
static void truncated(S s) {
  record(s, 'D');
  plausible(s);
  int n = nlines(s);
  int64_t k = vf_in("line", 0, n - 1), c = vf_in("columns", 0, 79), lost = vf_in("rest is lost", 0, 1);
  for (int i = 0; i < n; i++) {
    int64_t m = -(int64_t)(i == k);
    vf_f_len[i] = 80 ^ ((80 ^ c) & m);
    vf_assume((i != k) | (c < needed(s, i)) | ((lost == 1) & (i < n - 1)));
  }
  vf_f_nl = n - ((n - 1 - k) & -lost);
  vf_f_nonl = (lost & vf_in("no final newline", 0, 1)) != 0;
  rejected();
}
CONTRACT(truncated_gps) { truncated(S::gps); }
CONTRACT(truncated_galileo) { truncated(S::galileo); }
CONTRACT(truncated_beidou) { truncated(S::beidou); }
// @stub _ZNK4ngpt12NavDataFrame12glo_toe2dateINS_8vf_sec_tILl1EEEEENS_8datetimeIT_EEv=stub_glo_toe
CONTRACT(truncated_glonass) { truncated(S::glonass); }
CONTRACT(truncated_qzss) { truncated(S::qzss); }
CONTRACT(truncated_irnss) { truncated(S::irnss); }
CONTRACT(truncated_sbas) { truncated(S::sbas); }

// a value's columns are blank, or start with characters that are no number
static void damaged_value(S s) {
  record(s, 'D');
  plausible(s);
  int n = nlines(s);
  int64_t m = vf_in("field", 0, 4 * n - 1);
  for (int i = 0; i < 4 * n; i++) vf_assume((m != i) | used(s, i / 4, i % 4));
  m = vf_concretize(m);
  int64_t k = m / 4, j = m % 4;
  char *p = text_[k] + 4 + 19 * j;
  vf_chars(p, 1, " *", "c");
  vf_chars(p + 1, 18, p[0] == ' ' ? " " : " xF*G/", "c");
  rejected();
}
CONTRACT(value_missing_gps) { damaged_value(S::gps); }
CONTRACT(value_missing_galileo) { damaged_value(S::galileo); }
CONTRACT(value_missing_beidou) { damaged_value(S::beidou); }
// @stub _ZNK4ngpt12NavDataFrame12glo_toe2dateINS_8vf_sec_tILl1EEEEENS_8datetimeIT_EEv=stub_glo_toe
CONTRACT(value_missing_glonass) { damaged_value(S::glonass); }

// the first line does not name a satellite or an existing date
CONTRACT(no_such_system) {
  record(S::gps, 'D');
  plausible(S::gps);
  vf_chars(text_[0], 1, " ABDFHKLMNOPQTUVWXYZ0123456789gre>*%\x80\xff", "system");
  rejected();
}
CONTRACT(no_number) {
  record(S::gps, 'D');
  plausible(S::gps);
  vf_chars(text_[0] + 1, 2, " x-+*", "prn");
  rejected();
}
CONTRACT(no_such_date) {
  record(S::gps, 'D');
  vf_assume(!date_ok());
  rejected();
}
CONTRACT(date_unreadable) {
  record(S::gps, 'D');
  plausible(S::gps);
  static const int at[] = {4, 9, 12, 15, 18, 21};
  int64_t k = vf_concretize(vf_in("part", 0, 5));
  vf_chars(text_[0] + at[k], 2, "xG:*/", "c");
  rejected();
}
// a time of ephemeris that is no whole number of seconds of a week
CONTRACT(no_ephemeris_time) {
  record(S::gps, 'D');
  if (!vf_symbolic() && !date_ok()) std::memcpy(text_[0] + 9, "06 15", 5);
  double sow = value(text_[3] + 4);
  vf_assume((sow < 0) | (sow > 604800) | (sow != std::floor(sow)));
  rejected();
}
// @stub _ZNK4ngpt12NavDataFrame12glo_toe2dateINS_8vf_sec_tILl1EEEEENS_8datetimeIT_EEv=stub_glo_toe
CONTRACT(no_ephemeris_time_glonass) {
  record(S::glonass, 'D');
  double sow = value(text_[0] + 4 + 57);
  vf_assume((sow < 0) | (sow > 604800) | (sow != std::floor(sow)));
  rejected();
}
// a stream that cannot be read
CONTRACT(unreadable_stream) {
  record(S::gps, 'D');
  vf_f_missing = true;
  rejected();
}
