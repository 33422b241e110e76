// property: P20
// bound: two epochs of up to two satellites; up to eight more header lines
// sources: sp3c.cpp satsys.cpp
// model: stubs/ifstream.cpp
// flags: -I@/stubs -include iostream -DVF_UF_DATE
// option: lia=1
// fixup: std::vector<Sp3EpochSvRecord>{1, {}}=>std::vector<Sp3EpochSvRecord>(1)
#include "vf.h"
#include "vfile.h"
#include "ggdatetime/datetime_read.hpp"
#include <iostream>
#include "sp3c.hpp"
using namespace ngpt;
typedef SATELLITE_SYSTEM S;
static char line_[64][84];
static int nline_;
static char *line(const char *s) {
  char *t = line_[nline_++];
  long n = std::strlen(s);
  std::memcpy(t, s, n + 1);
  vf_line(t, n);
  return t;
}
static void begin() {
  vf_begin();
  nline_ = 0;
}
static char *text(int k) { return const_cast<char *>(vf_f_text[k]); }
static const char dg[] = "0123456789";
// 2001-08-08 00:00 = GPS week 1126, second 259200; MJD 52129
static void header(int sats, int more = 0, int comments = 1) {
  begin();
  vf_assume(vf_date_exists(2001, 8, 8) && vf_date_mjd(2001, 8, 8) == 52129);
  line("#cP2001  8  8  0  0  0.00000000     192 ORBIT IGS97 HLM  IGS");
  line("## 1126 259200.00000000   900.00000000 52129 0.0000000000000");
  char *t = line("+    0   G01G02G03G04G05G06G07G08G09G10G11G13G14G15G17G18G20");
  t[4] = sats / 10 ? '0' + sats / 10 : ' ';
  t[5] = '0' + sats % 10;
  for (int i = 0; i < 4 + more; i++) line("+          0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0");
  for (int i = 0; i < 5 + more; i++) line("++         7  6  4  5  6  4  5  4  4  4  5  5  5  6  4  4  5");
  line("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
  line("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
  for (int i = 0; i < 2; i++) line("%f  0.0000000  0.000000000  0.00000000000  0.000000000000000");
  for (int i = 0; i < 2; i++) line("%i    0    0    0    0      0      0      0      0         0");
  for (int i = 0; i < comments; i++) line("/* CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC");
}
static long digits(const char *p, int n) {
  char b[8];
  std::memcpy(b, p, n);
  b[n] = 0;
  return std::strtol(b, nullptr, 10);
}
static double value(const char *p, int n) {
  char b[20];
  std::memcpy(b, p, n);
  b[n] = 0;
  return std::strtod(b, nullptr);
}
// an epoch line
static char *epoch() {
  char *t = line("*  2001  8  8  0  0  0.00000000");
  vf_chars(t + 5, 2, dg, "year");
  vf_chars(t + 9, 1, "123456789", "month");
  vf_chars(t + 11, 1, " 12", "day");
  vf_chars(t + 12, 1, "12345678", "day");
  vf_chars(t + 14, 1, " 1", "hour");
  vf_chars(t + 15, 1, dg, "hour");
  vf_chars(t + 17, 1, " 12345", "minute");
  vf_chars(t + 18, 1, dg, "minute");
  vf_chars(t + 20, 1, " 12345", "second");
  vf_chars(t + 21, 1, dg, "second");
  vf_chars(t + 23, 8, dg, "fraction");
  vf_assume(vf_date_exists(digits(t + 3, 4), digits(t + 8, 2), digits(t + 11, 2)));
  double s = value(t + 20, 11);
  vf_assume(s >= 0);
  vf_assume(s < 60);
  return t;
}
static void check_epoch(const datetime<microseconds> &t, const char *e) {
  vf_assert(t.mjd().as_underlying_type() == vf_date_mjd(digits(e + 3, 4), digits(e + 8, 2), digits(e + 11, 2)), "day of the epoch line");
  // (micro)seconds of the day, all hours, minutes and seconds being in range
  long us = t.sec().as_underlying_type() - (digits(e + 14, 2) * 3600 + digits(e + 17, 2) * 60) * 1000000L;
  double want = value(e + 20, 11) * 1e6;
  vf_assert(us <= want + 1 && us >= want - 1, "time of the epoch line, to the microsecond");
}
static const char POSITION[] = "PG01 -11044.805800 -10475.672350  21929.418200    189.163300 18 18 18 219       ";
// a number of 14 columns
static void number(char *p) {
  vf_chars(p, 1, "-1 ", "sign");
  vf_chars(p + 1, 6, dg, "d");
  vf_chars(p + 8, 6, dg, "d");
}
static void check_values(const Sp3EpochSvRecord &r, const char *t) {
  bool absent = false;
  for (int i = 0; i < 3; i++) {
    double x = value(t + 4 + 14 * i, 14);
    vf_assert_eq(r.vals_[i], x * 1e3, "coordinate of its own columns, in metres");
    absent = absent | (x == 0);
  }
  double c = value(t + 46, 14);
  vf_assert_eq(r.vals_[3], c, "clock of columns 47-60");
  vf_assert(r.flag_.is_set(Sp3Event::bad_abscent_position) == absent, "an absent position is flagged");
  vf_assert(r.flag_.is_set(Sp3Event::bad_abscent_clock) == (c >= 999999), "an absent clock is flagged");
}
static void check_flags(const Sp3EpochSvRecord &r, const char *t, long n = 80) {
  vf_assert(r.flag_.is_set(Sp3Event::clock_event) == (n > 74 && t[74] == 'E'), "clock event of column 75");
  vf_assert(r.flag_.is_set(Sp3Event::clock_prediction) == (n > 75 && t[75] == 'P'), "clock prediction of column 76");
  vf_assert(r.flag_.is_set(Sp3Event::maneuver) == (n > 78 && t[78] == 'M'), "manoeuvre of column 79");
  vf_assert(r.flag_.is_set(Sp3Event::orbit_prediction) == (n > 79 && t[79] == 'P'), "orbit prediction of column 80");
}
static void check_satellite(const Sp3EpochSvRecord &r, const char *t) {
  vf_assert(satsys_to_char(r.s_) == t[1], "satellite system of column 2");
  vf_assert(r.prn_ == digits(t + 2, 2), "satellite number of columns 3-4");
}
static void dirty(std::vector<Sp3EpochSvRecord> &v) {
  for (auto &r : v) r.s_ = S::sbas, r.prn_ = 99, r.vals_[0] = r.vals_[1] = r.vals_[2] = r.vals_[3] = 77, r.flag_.bits_ = 0xff;
}
static int next(Sp3c &f, datetime<microseconds> &t, std::vector<Sp3EpochSvRecord> &v, int &n) {
  errno = vf_concretize(vf_in("stale errno", 0, 1)) ? ERANGE : 0;
  return f.get_next_epoch(t, v, n);
}
// reads the epoch of one satellite that is the whole file
static Sp3EpochSvRecord single() {
  line("EOF");
  Sp3c f(vf_file());
  datetime<microseconds> t;
  auto v = f.allocate_epoch_vector();
  vf_assert(v.size() == 2, "room for the satellites of the header");
  dirty(v);
  int n = 99;
  vf_assert(next(f, t, v, n) < 0 && n == 1, "the satellite is read");
  return v[0];
}

// the time stamp of an epoch
CONTRACT(time_stamp) {
  header(2);
  const char *e = epoch();
  line("EOF");
  Sp3c f(vf_file());
  datetime<microseconds> t;
  auto v = f.allocate_epoch_vector();
  int n = 99;
  int r = next(f, t, v, n);
  vf_assert(r < 0 && n == 0, "an epoch line is accepted");
  check_epoch(t, e);
}
// one value of a satellite, any digits and sign
CONTRACT(values) {
  header(2);
  line("*  2001  8  8  0 15  0.00000000");
  char *p = line(POSITION);
  int i = vf_concretize(vf_in("which", 0, 3));
  number(p + 4 + 14 * i);
  Sp3EpochSvRecord r = single();
  check_values(r, p);
  check_flags(r, p);
  check_satellite(r, p);
}
// fields that fill their columns, so that nothing separates them
CONTRACT(values_full) {
  header(2);
  line("*  2001  8  8  0 15  0.00000000");
  char *p = line(POSITION);
  int i = vf_concretize(vf_in("which", 0, 2));
  for (int k = i; k < i + 2; k++) {
    p[4 + 14 * k] = k == i ? '1' : '-';
    vf_chars(p + 5 + 14 * k, 6, dg, "d");
    vf_chars(p + 12 + 14 * k, 6, dg, "d");
  }
  check_values(single(), p);
}
// absent values and values near them, in any column
CONTRACT(absent) {
  static const char *const special[] = {"      0.000000", "     -0.000000", " 999999.000000", " 999999.999999", " 999998.999999", "-999999.999999", "      0.000001", "             0"};
  header(2);
  line("*  2001  8  8  0 15  0.00000000");
  char *p = line(POSITION);
  for (int k = 0; k < 2; k++) std::memcpy(p + 4 + 14 * vf_concretize(vf_in("which", 0, 3)), special[vf_concretize(vf_in("value", 0, 7))], 14);
  p[14 * 4 + 4] = ' ';
  check_values(single(), p);
}
// the satellite
CONTRACT(satellite) {
  header(2);
  line("*  2001  8  8  0 15  0.00000000");
  char *p = line(POSITION);
  vf_chars(p + 1, 1, "GRESCJI", "system");
  vf_chars(p + 2, 1, " 0123456789", "prn");
  vf_chars(p + 3, 1, dg, "prn");
  Sp3EpochSvRecord r = single();
  check_satellite(r, p);
  check_values(r, p);
}
// the flags; lines end anywhere behind the clock
CONTRACT(flags) {
  header(2);
  line("*  2001  8  8  0 15  0.00000000");
  char *p = line(POSITION);
  vf_chars(p + 74, 2, " EPM", "flag");
  vf_chars(p + 78, 2, " EPM", "flag");
  long n = vf_concretize(vf_in("length", 0, 6));
  vf_f_len[vf_f_nl - 1] = n = n == 0 ? 60 : 74 + n;
  p[n] = 0;
  Sp3EpochSvRecord r = single();
  check_flags(r, p, n);
  check_values(r, p);
}
// two epochs of up to two satellites and other lines, end of the file with or
// without an EOF line; reading again after rewinding
CONTRACT(sequence) {
  header(2, 0, vf_concretize(vf_in("comments", 0, 2)));
  vf_assume(vf_date_exists(2001, 8, 7));
  char *e[2], *p[2][2];
  int m[2];
  for (int k = 0; k < 2; k++) {
    e[k] = line(k ? "*  2001  8  8  0 15  0.00000000" : "*  2001  8  7 23 59 30.00000000");
    m[k] = vf_concretize(vf_in("satellites", 0, 2));
    for (int i = 0; i < m[k]; i++) {
      p[k][i] = line(POSITION);
      p[k][i][3] = '2' + 2 * k + i;
      p[k][i][74] = k ? 'E' : ' ';
      for (int j = 0; j < 4; j++) p[k][i][15 + 14 * j] = '1' + 4 * (2 * k + i) % 8 + j;
      if (i == k) line(vf_concretize(vf_in("velocity", 0, 1)) ? "VG01  20298.880364 -18462.044804   1381.387685     -4.534317 14 14 14 191" : "EP  55   55   55     222  1234567 -1234567  5999999      -30       21 -1230000");
    }
  }
  bool end = vf_concretize(vf_in("EOF line", 0, 1));
  if (end) line("EOF");
  vf_f_nonl = vf_concretize(vf_in("no final newline", 0, 1));
  Sp3c f(vf_file());
  datetime<microseconds> t;
  auto v = f.allocate_epoch_vector();
  vf_assert(f.interval() == microseconds(900000000L) && f.num_sats() == 2, "interval and number of satellites of the header");
  for (int pass = 0; pass < 2; pass++) {
    for (int k = 0; k < 2; k++) {
      dirty(v);
      int n = 99, r = f.get_next_epoch(t, v, n);
      vf_assert(k ? r < 0 : r == 0, "epochs are read in order up to the end of the file");
      vf_assert(n == m[k], "number of satellites of the epoch");
      check_epoch(t, e[k]);
      for (int i = 0; i < m[k]; i++) check_values(v[i], p[k][i]), check_satellite(v[i], p[k][i]), check_flags(v[i], p[k][i]);
    }
    int n = 99;
    vf_assert(f.get_next_epoch(t, v, n) != 0, "there is no epoch behind the last one");
    f.rewind();
  }
}
// a file that ends in the middle of a line or between lines
CONTRACT(truncated) {
  header(2);
  line("*  2001  8  8  0 15  0.00000000");
  char *p = line(POSITION);
  bool second = vf_concretize(vf_in("which line", 0, 1));
  // the last line of the file stops somewhere
  if (!second) vf_f_nl--;
  long n = vf_concretize(vf_in("length", 0, second ? 80 : 31));
  vf_f_len[vf_f_nl - 1] = n;
  text(vf_f_nl - 1)[n] = 0;
  vf_f_nonl = true;
  Sp3c f(vf_file());
  datetime<microseconds> t;
  auto v = f.allocate_epoch_vector();
  dirty(v);
  int m = 99, r = next(f, t, v, m);
  if (!second) {
    vf_assert(r != 0, "a file that ends in an epoch line");
    vf_assert(r > 0 || n == 31, "an epoch line that is cut is rejected");
    return;
  }
  if (n == 0) vf_assert(r < 0 && m == 0, "the end of the file");
  else if (n < 60) vf_assert(r > 0, "a position line that is cut is rejected");
  else {
    vf_assert(r < 0 && m == 1, "a line with all its values");
    check_values(v[0], p);
  }
}
// fields that are no numbers, dates that do not exist
CONTRACT(damaged) {
  header(2);
  char *e = line("*  2001  8  8  0 15  0.00000000"), *p = line(POSITION);
  line("EOF");
  static const char at[] = {3, 8, 11, 14, 17, 20}, w[] = {4, 2, 2, 2, 2, 11};
  int which = vf_concretize(vf_in("which", 0, 12));
  bool lost = vf_concretize(vf_in("blank", 0, 1));
  if (which < 6) std::memset(e + at[which], lost ? ' ' : 'x', w[which]);
  else if (which == 6) std::memset(p + 2, lost ? ' ' : 'x', 2);
  else if (which < 11) std::memset(p + 4 + 14 * (which - 7), lost ? ' ' : '*', 14);
  else if (which == 11) p[1] = lost ? ' ' : 'X';
  else {
    // the date of the epoch
    e[9] = '2';
    e[11] = '3';
    e[12] = lost ? '0' : '1';
    vf_assume(!vf_date_exists(2001, 2, lost ? 30 : 31));
  }
  Sp3c f(vf_file());
  datetime<microseconds> t;
  auto v = f.allocate_epoch_vector();
  int m = 99;
  vf_assert(next(f, t, v, m) > 0, "a damaged line is rejected");
}
// more satellites than the vector has room for; lines that are too long
CONTRACT(limits) {
  header(1 + vf_concretize(vf_in("two satellites", 0, 1)));
  line("*  2001  8  8  0 15  0.00000000");
  int m = vf_concretize(vf_in("satellites", 0, 4));
  for (int i = 0; i < m; i++) line(POSITION)[3] = '1' + i;
  bool tail = vf_concretize(vf_in("long line", 0, 1));
  long len = 0;
  if (tail) {
    static char l[400];
    len = vf_concretize(vf_in("length", 0, 3)) * 60 + 90;
    std::memset(l, ' ', len);
    l[0] = 'V';
    l[len] = 0;
    vf_line(l, len);
  }
  line("EOF");
  Sp3c f(vf_file());
  datetime<microseconds> t;
  std::vector<Sp3EpochSvRecord> v = f.allocate_epoch_vector();
  int n = 99, r = next(f, t, v, n);
  if ((unsigned long)m > v.size()) vf_assert(r > 0, "more satellites than the header says are rejected");
  else if (len < 128) vf_assert(r < 0 && n == m, "all satellites are read");
  else vf_assert(r > 0 || n == m, "a long line is rejected or skipped");
}
// is the header accepted?  interval and number of satellites
static bool accepted(long *us = nullptr, long *sats = nullptr) {
  errno = vf_concretize(vf_in("stale errno", 0, 1)) ? ERANGE : 0;
  try {
    Sp3c f(vf_file());
    if (us) *us = f.interval().as_underlying_type();
    if (sats) *sats = f.num_sats();
  } catch (std::runtime_error &) {
    return false;
  }
  return true;
}
// interval and number of satellites are those of the header
CONTRACT(header_values) {
  header(1);
  char *i = text(1) + 24, *n = text(2) + 4;
  vf_chars(i, 1, " 1", "interval");
  vf_chars(i + 1, 4, dg, "interval");
  vf_chars(i + 6, 8, dg, "interval");
  vf_chars(n, 1, " 123456789", "satellites");
  vf_chars(n + 1, 1, dg, "satellites");
  vf_assume(digits(n, 2) > 0);
  double want = value(i, 14) * 1e6;
  vf_assume(want >= 0);
  vf_assume(want <= 1e11);
  line("EOF");
  long us = -1, sats = -1;
  vf_assert(accepted(&us, &sats), "the header is accepted");
  vf_assert(us <= want + 1 && us >= want - 1, "interval of the header, to the microsecond");
  vf_assert(sats == digits(n, 2), "number of satellites of the header");
}
// headers of every length; start at any of several times of the day
CONTRACT(header_shapes) {
  static const char *const hm[] = {" 0  0", " 1  0", " 6  0", "13 20", "23 45"};
  static const char *const sow[] = {"259200", "262800", "280800", "307200", "344700"};
  static const char *const fraction[] = {"0000000000000", "0416666666667", "2500000000000", "5555555555556", "9895833333333"};
  header(1, vf_concretize(vf_in("more lines", 0, 3)), vf_concretize(vf_in("comments", 0, 3)));
  int k = vf_concretize(vf_in("start", 0, 4));
  std::memcpy(text(0) + 14, hm[k], 5);
  std::memcpy(text(1) + 8, sow[k], 6);
  std::memcpy(text(1) + 47, fraction[k], 13);
  text(0)[2] = vf_concretize(vf_in("velocities", 0, 1)) ? 'V' : 'P';
  text(0)[1] = vf_concretize(vf_in("version", 0, 1)) ? 'c' : 'd';
  line("*  2001  8  8  0 15  0.00000000");
  line(POSITION);
  line("EOF");
  Sp3c f(vf_file());
  vf_assert(f.interval() == microseconds(900000000L) && f.num_sats() == 1, "the header is accepted");
  datetime<microseconds> t;
  auto v = f.allocate_epoch_vector();
  int n = 99;
  vf_assert(next(f, t, v, n) < 0 && n == 1, "the epochs begin behind the header");
  check_satellite(v[0], POSITION);
}
// headers that contradict themselves or are no header
CONTRACT(header_rejected) {
  header(2);
  line("EOF");
  int which = vf_concretize(vf_in("which", 0, 13));
  if (which == 0) text(0)[0] = '%';
  if (which == 1) text(0)[1] = vf_concretize(vf_in("version", 0, 1)) ? 'a' : ' ';
  if (which == 2) text(1)[1] = ' ';
  if (which == 3) text(1)[6] = '7'; // the week is another one
  if (which == 4) text(1)[13] = '1'; // second of the week
  if (which == 5) text(1)[43] = '8'; // day
  if (which == 6) text(1)[59] = '1', text(1)[54] = '1'; // fraction of the day
  if (which == 7) text(2)[0] = ' ';
  if (which == 8) text(2)[4] = text(2)[5] = vf_concretize(vf_in("satellites", 0, 1)) ? ' ' : '0';
  if (which == 9) text(12)[vf_concretize(vf_in("column", 0, 1))] = 'x';
  if (which == 10) text(13)[vf_concretize(vf_in("column", 0, 1))] = 'x';
  if (which == 11) text(vf_concretize(vf_in("line", 14, 15)))[vf_concretize(vf_in("column", 0, 1))] = 'x';
  if (which == 12) text(vf_concretize(vf_in("line", 16, 17)))[vf_concretize(vf_in("column", 0, 1))] = 'x';
  if (which == 13) text(0)[20] = text(0)[21] = '9';
  vf_assert(!accepted(), "the header is rejected");
}
// files that end inside of the header
CONTRACT(header_truncated) {
  header(2);
  // (the header ends with the second line that starts with %i)
  int k = vf_concretize(vf_in("line", 0, 17));
  vf_f_nl = k + 1;
  long n = vf_concretize(vf_in("length", 0, k < 2 ? 60 : 2));
  vf_f_len[k] = n;
  text(k)[n] = 0;
  vf_f_nonl = vf_concretize(vf_in("no final newline", 0, 1));
  bool ok = accepted();
  vf_assert(!ok || (k == 17 && n == 2), "a header that is cut is rejected");
}
CONTRACT(no_file) {
  begin();
  vf_f_missing = true;
  vf_assert(!accepted(), "a file that cannot be opened is rejected");
  begin();
  vf_assert(!accepted(), "an empty file is rejected");
}
