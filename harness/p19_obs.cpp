// property: P19
// bound: two epochs of up to two satellites (three in `satellites`, 82 in `many`); up to 39 observation types
// sources: obsrnx.cpp satsys.cpp gnssobs.cpp gnssobsrv.cpp nvarstr.cpp antenna.cpp satellite.cpp
// model: stubs/ifstream.cpp
// flags: -I@/stubs -include iostream -DVF_UF_DATE
// option: lia=1
#include "vf.h"
#include "vfile.h"
#include "ggdatetime/datetime_read.hpp"
#include <iostream>
#include "obsrnx.hpp"
using namespace ngpt;
typedef SATELLITE_SYSTEM S;
typedef std::map<S, std::vector<std::vector<std::pair<std::size_t, double>>>> Map;
typedef std::vector<std::pair<Satellite, std::vector<double>>> Sats;
static char line_[128][200];
static int nline_;
static char *line(const char *s) {
  char *t = line_[nline_++];
  long n = std::strlen(s);
  std::memcpy(t, s, n + 1);
  vf_line(t, n);
  return t;
}
static char *text(int k) { return const_cast<char *>(vf_f_text[k]); }
static const char dg[] = "0123456789";
static long digits(const char *p, int n) {
  char b[8];
  std::memcpy(b, p, n);
  b[n] = 0;
  return std::strtol(b, nullptr, 10);
}
static double value(const char *p, int n) {
  char b[20];
  std::memcpy(b, p, n);
  b[n] = 0;
  return std::strtod(b, nullptr);
}
static void begin() {
  vf_begin();
  nline_ = 0;
}
static const char VERSION[] = "     3.04           OBSERVATION DATA    M: Mixed            RINEX VERSION / TYPE";
static const char PGM[] = "sbf2rin-12.3.1                          20181005 003037 UTC PGM / RUN BY / DATE";
static const char END[] = "                                                            END OF HEADER       ";
// GPS: C1C L1C C2W L2W; GLONASS: C1C L1C; Galileo: C1X
static void header() {
  begin();
  vf_assume(vf_date_exists(2020, 1, 2) && vf_date_mjd(2020, 1, 2) == 58850);
  line(VERSION);
  line(PGM);
  line("G    4 C1C L1C C2W L2W                                      SYS / # / OBS TYPES ");
  line("R    2 C1C L1C                                              SYS / # / OBS TYPES ");
  line("E    1 C1X                                                  SYS / # / OBS TYPES ");
  line(END);
}
static const char EPOCH[] = "> 2020 01 02 03 04 30.0000000  0  1      -0.123456789012";
static const char RECORD[] = "G07  23619095.450 7 124119707.28917  23619094.940 5  96716648.40605";
static void get(std::vector<GnssObservable> &v, S s, const char *code, double coef = 1) { v.emplace_back(s, ObservationCode(code), coef); }
static int next(ObservationRnx &f, Map &m, Sats &v, int &n, long &mjd, double &sec, bool stale = true) {
  modified_julian_day d(-7);
  errno = stale ? ERANGE : 0;
  int r = f.read_next_epoch(m, v, n, d, sec);
  mjd = d.as_underlying_type();
  return r;
}

// the time stamp of an epoch
CONTRACT(time_stamp) {
  header();
  char *t = line(EPOCH);
  t[34] = '0';
  vf_chars(t + 4, 2, dg, "year");
  vf_chars(t + 7, 1, " 01", "month");
  vf_chars(t + 8, 1, "12", "month");
  vf_chars(t + 10, 1, "012", "day");
  vf_chars(t + 11, 1, "12345678", "day");
  vf_chars(t + 13, 1, "01", "hour");
  vf_chars(t + 14, 1, dg, "hour");
  vf_chars(t + 16, 1, "012345", "minute");
  vf_chars(t + 17, 1, dg, "minute");
  vf_chars(t + 19, 1, " 012345", "second");
  vf_chars(t + 20, 1, dg, "second");
  vf_chars(t + 22, 7, dg, "fraction");
  vf_assume(vf_date_exists(digits(t + 2, 4), digits(t + 7, 2), digits(t + 10, 2)));
  ObservationRnx f(vf_file());
  std::map<S, std::vector<GnssObservable>> in;
  get(in[S::gps], S::gps, "C1C");
  Map m = f.set_read_map(in);
  auto v = f.initialize_epoch_vector(m);
  int n = 99;
  long mjd;
  double sec = -1;
  vf_assert(next(f, m, v, n, mjd, sec) == 0 && n == 0, "an epoch line is accepted");
  vf_assert(mjd == vf_date_mjd(digits(t + 2, 4), digits(t + 7, 2), digits(t + 10, 2)), "day of the epoch line");
  vf_assert_eq(sec, digits(t + 13, 2) * 3600 + digits(t + 16, 2) * 60 + value(t + 18, 11), "second of the day of the epoch line");
  vf_assert(next(f, m, v, n, mjd, sec) == -1 && n == 0, "the end of the file");
}

// a number of 14 columns
static void number(char *p) {
  vf_chars(p, 1, "-1 ", "sign");
  vf_chars(p + 1, 9, dg, "d");
  vf_chars(p + 11, 3, dg, "d");
}
// the value the record t of length n has for column k; missing if blank
static double column(const char *t, long n, int k) {
  const char *p = t + 3 + 16 * k;
  if (n <= 3 + 16 * k) return RNXOBS_MISSING_VAL;
  bool blank = true;
  for (int i = 0; i < 14; i++) if (p[i] != ' ') blank = false;
  return blank ? RNXOBS_MISSING_VAL : value(p, 14);
}
// one record, whose values are any numbers; single observables and sums with
// any coefficients
CONTRACT(values) {
  header();
  line(EPOCH);
  char *p = line(RECORD);
  number(p + 3);
  int k = vf_concretize(vf_in("which", 1, 3));
  number(p + 3 + 16 * k);
  double a = vf_real_hint("a", -10, 10), b = vf_real_hint("b", -10, 10);
  vf_assume(value(p + 3, 14) != RNXOBS_MISSING_VAL);
  vf_assume(value(p + 3 + 16 * k, 14) != RNXOBS_MISSING_VAL);
  ObservationRnx f(vf_file());
  std::map<S, std::vector<GnssObservable>> in;
  static const char *const code[] = {"C1C", "L1C", "C2W", "L2W"};
  auto &g = in[S::gps];
  get(g, S::gps, code[k]);
  get(g, S::gps, "C1C", a);
  g[1].add(S::gps, ObservationCode(code[k]), b);
  get(g, S::gps, "C1C", b);
  Map m = f.set_read_map(in);
  vf_assert(m.size() == 1 && m[S::gps].size() == 3, "one entry for each observable");
  auto v = f.initialize_epoch_vector(m);
  int n = 99;
  long mjd;
  double sec = -1;
  bool stale = vf_concretize(vf_in("stale errno", 0, 1));
  vf_assert(next(f, m, v, n, mjd, sec, stale) == 0 && n == 1, "the satellite is read");
  vf_assert(v[0].first.system() == S::gps && v[0].first.prn() == 7, "satellite of the record");
  const auto &x = v[0].second;
  vf_assert_eq(x[0], value(p + 3 + 16 * k, 14), "value of the column of the observable");
  vf_assert_eq(x[1], a * value(p + 3, 14) + b * value(p + 3 + 16 * k, 14), "combination of the values of its columns");
  vf_assert_eq(x[2], b * value(p + 3, 14), "value times coefficient");
}
static void check_record(const char *p, long len) {
  ObservationRnx f(vf_file());
  std::map<S, std::vector<GnssObservable>> in;
  auto &g = in[S::gps];
  get(g, S::gps, "C1C");
  get(g, S::gps, "L1C");
  get(g, S::gps, "C2W");
  get(g, S::gps, "L2W");
  get(g, S::gps, "C1C", 0.5);
  g[4].add(S::gps, ObservationCode("L2W"), 0.5);
  g[4].add(S::gps, ObservationCode("L1C"), 0.25);
  Map m = f.set_read_map(in);
  auto v = f.initialize_epoch_vector(m);
  for (auto &x : v[0].second) x = 77;
  int n = 99;
  long mjd;
  double sec = -1;
  int r = next(f, m, v, n, mjd, sec);
  // does the line end within a value?
  bool within = len < 3;
  double x[4];
  for (int k = 0; k < 4; k++) {
    long at = 3 + 16 * k;
    x[k] = column(p, len, k);
    if (at < len && len < at + 14) {
      x[k] = RNXOBS_MISSING_VAL;
      for (long i = at; i < len; i++) if (p[i] != ' ') within = true;
    }
  }
  vf_assert(within ? r > 0 : r == 0 && n == 1, "a record with missing values is read, one that ends within a value is rejected");
  if (within) return;
  for (int k = 0; k < 4; k++) vf_assert_eq(v[0].second[k], x[k], "the value of the column, if there is one");
  bool all = x[0] != RNXOBS_MISSING_VAL && x[1] != RNXOBS_MISSING_VAL && x[3] != RNXOBS_MISSING_VAL;
  vf_assert_eq(v[0].second[4], all ? 0.5 * x[0] + 0.5 * x[3] + 0.25 * x[1] : RNXOBS_MISSING_VAL, "a combination is missing if one of its values is");
}
// missing values: blank columns
CONTRACT(missing) {
  header();
  line(EPOCH);
  char *p = line(RECORD);
  int mask = vf_concretize(vf_in("blank", 0, 15)), w = 14 + vf_concretize(vf_in("indicators", 0, 2));
  for (int k = 0; k < 4; k++) if (mask >> k & 1) std::memset(p + 3 + 16 * k, ' ', w);
  line(END);
  check_record(p, 67);
}
// records that end early
CONTRACT(cut) {
  header();
  line(EPOCH);
  char *p = line(RECORD);
  int k = vf_concretize(vf_in("blank", 0, 4));
  if (k < 4) std::memset(p + 3 + 16 * k, ' ', 16);
  long len = 67 - vf_concretize(vf_in("cut", 0, 66));
  vf_f_len[vf_f_nl - 1] = len;
  p[len] = 0;
  check_record(p, len);
}

// two epochs of up to three satellites of any of three systems, of which two
// are asked for; reading again after rewinding; the file may end without newline
CONTRACT(sequence) {
  header();
  vf_assume(vf_date_exists(2020, 1, 3) && vf_date_mjd(2020, 1, 3) == 58851);
  char *p[2][3];
  int m[2], sys[2][3];
  for (int k = 0; k < 2; k++) {
    m[k] = vf_concretize(vf_in("satellites", 0, 2));
    char *e = line(k ? "> 2020 01 03 03 05  0.0000000  1  0" : EPOCH);
    e[34] = '0' + m[k];
    for (int i = 0; i < m[k]; i++) {
      sys[k][i] = k ? 1 + i : vf_concretize(vf_in("system", 0, 2));
      char *t = p[k][i] = line(sys[k][i] == 0 ? RECORD : sys[k][i] == 1 ? "R02  20000000.125 7  10000000.25017" : "E03  25000000.500 8");
      t[1] = '1' + k;
      t[2] = '1' + i;
      t[7] = '1' + 3 * k + i;
    }
  }
  vf_f_nonl = vf_concretize(vf_in("no final newline", 0, 1));
  ObservationRnx f(vf_file());
  std::map<S, std::vector<GnssObservable>> in;
  int which = vf_concretize(vf_in("systems", 0, 2)); // without this one
  if (which != 0) get(in[S::gps], S::gps, "L1C"), get(in[S::gps], S::gps, "C1C");
  if (which != 1) get(in[S::glonass], S::glonass, "C1C", 2);
  if (which != 2) get(in[S::galileo], S::galileo, "C1X");
  Map mm = f.set_read_map(in);
  vf_assert(mm.size() == 2, "systems asked for");
  auto v = f.initialize_epoch_vector(mm);
  for (int pass = 0; pass < 2; pass++) {
    for (int k = 0; k < 2; k++) {
      int n = 99;
      long mjd;
      double sec = -1;
      vf_assert(next(f, mm, v, n, mjd, sec, false) == 0, "epochs are read in order");
      vf_assert(mjd == 58850 + k, "day of the epoch");
      vf_assert_eq(sec, 3 * 3600 + (k ? 300 : 270), "second of the epoch");
      int j = 0;
      for (int i = 0; i < m[k]; i++) {
        if (sys[k][i] == which) continue;
        const char *t = p[k][i];
        const auto &x = v[j].second;
        vf_assert(satsys_to_char(v[j].first.system()) == t[0] && v[j].first.prn() == (t[1] - '0') * 10 + t[2] - '0', "satellites asked for, in order");
        if (t[0] == 'G') vf_assert(x[0] == value(t + 19, 14) && x[1] == value(t + 3, 14), "GPS observables, in the order asked for");
        else vf_assert_eq(x[0], (t[0] == 'R' ? 2 : 1) * value(t + 3, 14), "observable of another system");
        j++;
      }
      vf_assert(n == j, "number of satellites collected");
    }
    int n = 99;
    long mjd;
    double sec;
    vf_assert(next(f, mm, v, n, mjd, sec, false) == -1 && n == 0, "the end of the file is reported behind the last epoch");
    f.rewind();
  }
}
// three satellites of one epoch, any of them without the value asked for; one or
// two systems asked for
CONTRACT(satellites) {
  header();
  line(EPOCH)[34] = '3';
  char *p[3];
  int sys[3];
  bool blank[3];
  for (int i = 0; i < 3; i++) {
    sys[i] = vf_concretize(vf_in("system", 0, 1));
    blank[i] = vf_concretize(vf_in("blank", 0, 1));
    char *t = p[i] = line(sys[i] ? "R02  20000000.125 7  10000000.25017" : RECORD);
    t[2] = '1' + i;
    t[7] = '1' + i;
    if (blank[i]) std::memset(t + 3, ' ', 16);
  }
  bool two = vf_concretize(vf_in("two systems", 0, 1));
  ObservationRnx f(vf_file());
  std::map<S, std::vector<GnssObservable>> in;
  get(in[S::gps], S::gps, "L1C");
  get(in[S::gps], S::gps, "C1C");
  if (two) get(in[S::glonass], S::glonass, "C1C");
  Map m = f.set_read_map(in);
  auto v = f.initialize_epoch_vector(m);
  for (auto &x : v) for (auto &y : x.second) y = 77;
  int n = 99;
  long mjd;
  double sec;
  vf_assert(next(f, m, v, n, mjd, sec) == 0, "the epoch is read");
  int j = 0;
  for (int i = 0; i < 3; i++) {
    if (sys[i] && !two) continue;
    const auto &x = v[j].second;
    vf_assert(v[j].first.system() == (sys[i] ? S::glonass : S::gps) && v[j].first.prn() % 10 == 1 + i, "satellites asked for, in order, also without values");
    double c = blank[i] ? RNXOBS_MISSING_VAL : value(p[i] + 3, 14);
    if (sys[i]) vf_assert(x[0] == c, "value of the satellite, if it has one");
    else vf_assert(x[0] == value(p[i] + 19, 14) && x[1] == c, "values of the satellite, if it has them");
    j++;
  }
  vf_assert(n == j, "number of satellites collected");
}
// any number of observation types, on as many lines as needed
CONTRACT(obs_types) {
  begin();
  line(VERSION);
  bool pgm = vf_concretize(vf_in("other line", 0, 1));
  if (pgm) line(PGM);
  static const char num[] = {1, 2, 12, 13, 14, 25, 26, 27, 39};
  int n = num[vf_concretize(vf_in("types", 0, 8))];
  static char code[39][4];
  char *t = nullptr;
  for (int k = 0; k < n; k++) {
    code[k][0] = "CLDS"[k % 4];
    code[k][1] = '1' + k / 4 % 9;
    code[k][2] = k < 36 ? 'C' : 'W';
    if (k % 13 == 0) t = line("                                                            SYS / # / OBS TYPES ");
    if (k == 0) t[0] = 'G', t[4] = n < 10 ? ' ' : '0' + n / 10, t[5] = '0' + n % 10;
    std::memcpy(t + 7 + 4 * (k % 13), code[k], 3);
  }
  line("R    2 L1C C1C                                              SYS / # / OBS TYPES ");
  line(END);
  ObservationRnx f(vf_file());
  vf_assert(f.max_obs() == (n > 2 ? n : 2), "largest number of observation types");
  std::map<S, std::vector<GnssObservable>> in;
  int k = vf_concretize(vf_in("code", 0, 38));
  vf_assume(k < n);
  get(in[S::gps], S::gps, code[k], 2.5);
  get(in[S::glonass], S::glonass, "C1C");
  Map m = f.set_read_map(in);
  vf_assert(m.size() == 2 && m[S::gps].size() == 1 && m[S::gps][0].size() == 1 && m[S::glonass].size() == 1, "all observables are found");
  vf_assert(m[S::gps][0][0].first == (unsigned)k && m[S::glonass][0][0].first == 1, "column of the observable");
  vf_assert_eq(m[S::gps][0][0].second, 2.5, "coefficient of the observable");
}
// many observables, in any order
CONTRACT(read_order) {
  header();
  ObservationRnx f(vf_file());
  static const char *const code[] = {"C1C", "L1C", "C2W", "L2W"};
  std::map<S, std::vector<GnssObservable>> in;
  int n = vf_concretize(vf_in("observables", 1, 9)), first = vf_concretize(vf_in("first", 0, 3)), step = vf_concretize(vf_in("step", 0, 3));
  for (int i = 0; i < n; i++) {
    get(in[S::gps], S::gps, code[(first + i * step) % 4], 1 + i);
    if (i % 3 == 1) in[S::gps][i].add(S::gps, ObservationCode("C2W"), 0.5);
  }
  get(in[S::galileo], S::galileo, "C1X");
  Map m = f.set_read_map(in);
  const auto &g = m[S::gps];
  vf_assert(g.size() == (unsigned long)n && m[S::galileo].size() == 1, "one entry for each observable");
  for (int i = 0; i < n; i++) {
    vf_assert(g[i].size() == (i % 3 == 1 ? 2 : 1), "one pair for each term");
    vf_assert(g[i][0].first == (unsigned)(first + i * step) % 4, "column of the observable, in the order asked for");
    vf_assert_eq(g[i][0].second, 1 + i, "coefficient of the observable");
    if (i % 3 == 1) vf_assert(g[i][1].first == 2 && g[i][1].second == 0.5, "second term of a combination");
  }
}
// observables the file does not have
CONTRACT(read_map) {
  header();
  ObservationRnx f(vf_file());
  std::map<S, std::vector<GnssObservable>> in;
  get(in[S::gps], S::gps, "C2W");
  int which = vf_concretize(vf_in("which", 0, 3));
  if (which == 0) get(in[S::gps], S::gps, "C5Q");
  if (which == 1) get(in[S::beidou], S::beidou, "C1C");
  if (which == 2) get(in[S::gps], S::glonass, "C1C");
  if (which == 3) get(in[S::gps], S::gps, "C1C", 0.5), in[S::gps][1].add(S::glonass, ObservationCode("C1C"), 0.5);
  get(in[S::gps], S::gps, "L1C");
  get(in[S::glonass], S::glonass, "C1C");
  bool skip = vf_concretize(vf_in("skip missing", 0, 1));
  Map m = f.set_read_map(in, skip);
  if (!skip || which > 1) {
    vf_assert(m.empty(), "an observable that is not there gives no map");
    return;
  }
  vf_assert(m.size() == 2 && m[S::gps].size() == 2 && m[S::glonass].size() == 1, "the other observables");
  vf_assert(m[S::gps][0][0].first == 2 && m[S::gps][1][0].first == 1 && m[S::glonass][0][0].first == 0, "columns of the other observables");
  vf_assert(in[S::gps].size() == 2, "the observables that are not there are removed");
}

static std::map<S, std::vector<GnssObservable>> gps() {
  std::map<S, std::vector<GnssObservable>> in;
  get(in[S::gps], S::gps, "C1C");
  return in;
}
// files with one or two observation types, whose records are shorter than the
// epoch lines; epoch lines with and without clock offset
CONTRACT(few_types) {
  begin();
  vf_assume(vf_date_exists(2020, 1, 2) && vf_date_mjd(2020, 1, 2) == 58850);
  line(VERSION);
  bool two = vf_concretize(vf_in("two types", 0, 1));
  line(two ? "G    2 C1C L1C                                              SYS / # / OBS TYPES " : "G    1 C1C                                                  SYS / # / OBS TYPES ");
  line(END);
  char *e = line(EPOCH);
  long len = vf_concretize(vf_in("length", 0, 2)) * 10 + 35;
  if (len == 45) len = 41;
  if (len == 55) len = 56;
  e[len] = 0;
  vf_f_len[vf_f_nl - 1] = len;
  char *p = line(two ? "G07  23619095.450 7 124119707.28917" : "G07  23619095.450 7");
  ObservationRnx f(vf_file());
  auto in = gps();
  Map m = f.set_read_map(in);
  auto v = f.initialize_epoch_vector(m);
  int n = 99;
  long mjd;
  double sec = -1;
  vf_assert(next(f, m, v, n, mjd, sec) == 0 && n == 1, "the epoch is read");
  vf_assert(v[0].first.prn() == 7, "satellite of the record");
  vf_assert_eq(v[0].second[0], value(p + 3, 14), "value of the record");
}
// fields that are no numbers, dates that do not exist, lines of other kinds
CONTRACT(damaged) {
  header();
  char *e = line(EPOCH), *p = line(RECORD);
  static const char at[] = {2, 7, 10, 13, 16, 18, 32, 41}, w[] = {4, 2, 2, 2, 2, 11, 3, 15};
  int which = vf_concretize(vf_in("which", 0, 14));
  bool lost = vf_concretize(vf_in("blank", 0, 1));
  if (which < 7) std::memset(e + at[which], lost ? ' ' : 'x', w[which]);
  if (which == 7) std::memset(e + at[which], 'x', w[which]);
  if (which == 8) e[0] = lost ? ' ' : 'G';
  if (which == 9) std::memset(p + 1, lost ? ' ' : 'x', 2);
  if (which == 10) p[0] = lost ? ' ' : 'X';
  if (which == 11) p[lost ? 7 : 12] = 'x';
  if (which == 12) p[1] = p[2] = '0';
  if (which == 13) {
    e[8] = '2';
    e[10] = '3';
    e[11] = lost ? '0' : '1';
    vf_assume(!vf_date_exists(2020, 2, lost ? 30 : 31));
  }
  if (which == 14) e[34] = '2'; // the file ends within the epoch
  ObservationRnx f(vf_file());
  auto in = gps();
  Map m = f.set_read_map(in);
  auto v = f.initialize_epoch_vector(m);
  int n = 99;
  long mjd;
  double sec;
  vf_assert(next(f, m, v, n, mjd, sec) > 0, "a damaged line is rejected");
}
// epoch lines that end early
CONTRACT(cut_epoch) {
  header();
  char *e = line(EPOCH);
  e[34] = '0';
  long n = vf_concretize(vf_in("length", 0, 56));
  vf_f_len[vf_f_nl - 1] = n;
  e[n] = 0;
  vf_f_nonl = vf_concretize(vf_in("no final newline", 0, 1));
  ObservationRnx f(vf_file());
  auto in = gps();
  Map m = f.set_read_map(in);
  auto v = f.initialize_epoch_vector(m);
  int k = 99;
  long mjd;
  double sec;
  int r = next(f, m, v, k, mjd, sec);
  if (n < 35) vf_assert(r != 0 && k == 0, "an epoch line that is cut is rejected");
  else vf_assert(r >= 0, "the epoch line has all its fields");
  if (n == 35 || n == 41 || n == 56) vf_assert(r == 0, "an epoch line that is complete is read");
}
// epochs of many satellites; the vector has room for 80
CONTRACT(many) {
  header();
  char *e = line(EPOCH);
  int n = 78 + vf_concretize(vf_in("satellites", 0, 4)), others = vf_concretize(vf_in("other systems", 0, 1)) * 2;
  e[33] = '0' + n / 10;
  e[34] = '0' + n % 10;
  for (int i = 0; i < n; i++) {
    char *t = line(i < others ? "E03  25000000.500 8" : "G01  23619095.450 7");
    t[1] = '0' + i / 10;
    t[2] = '1' + i % 9;
  }
  ObservationRnx f(vf_file());
  auto in = gps();
  Map m = f.set_read_map(in);
  auto v = f.initialize_epoch_vector(m);
  vf_assert(v.size() == 80, "room for 80 satellites");
  int k = 99;
  long mjd;
  double sec;
  int r = next(f, m, v, k, mjd, sec);
  if (n - others > 80) vf_assert(r > 0, "more satellites than there is room for are rejected");
  else vf_assert(r == 0 && k == n - others && v[k - 1].first.prn() == (n - 1) / 10 * 10 + 1 + (n - 1) % 9, "all satellites are read");
}
static int open() {
  errno = ERANGE;
  try {
    ObservationRnx f(vf_file());
  } catch (std::runtime_error &) {
    return 0;
  }
  return 1;
}
// headers that are none, that contradict themselves or end early
CONTRACT(header_rejected) {
  header();
  int which = vf_concretize(vf_in("which", 0, 10));
  bool x = vf_concretize(vf_in("variant", 0, 1));
  if (which == 0) std::memset(text(0), x ? ' ' : 'x', 20);
  if (which == 1) text(0)[20] = x ? 'N' : ' ';
  if (which == 2) text(0)[40] = x ? ' ' : 'X';
  if (which == 3) text(3)[0] = x ? 'G' : 'X'; // twice, or no system
  if (which == 4) text(3)[5] = x ? 'x' : '0';
  if (which == 5) text(3)[5] = x ? '3' : '9'; // fewer types than it says
  if (which == 6) text(3)[x ? 7 : 12] = 'x';
  if (which == 7) text(2)[4] = '1', text(2)[5] = '4', std::memcpy(text(2) + 23, "C5Q L5Q S5Q S1C S2W D1C D2W C7Q L7Q", 35); // no continuation
  if (which == 8) vf_f_nl -= 1 + x;
  if (which == 9) {
    vf_f_nl = 1 + x;
    vf_f_nonl = true;
  }
  if (which == 10) {
    if (x) vf_f_missing = true;
    else begin();
  }
  vf_assert(!open(), "the header is rejected");
}
// approximate position, first observation and the other lines
CONTRACT(header_values) {
  begin();
  line(VERSION);
  static const char *const other[] = {
      "BRUX                                                        MARKER NAME         ", "13101M010                                                   MARKER NUMBER       ",
      "3001376             SEPT POLARX4TR      2.9.6               REC # / TYPE / VERS ", "00464               JAVRINGANT_DM   NONE                    ANT # / TYPE        ",
      "        0.4689        0.0000        0.0010                  ANTENNA: DELTA H/E/N", "     0                                                      RCV CLOCK OFFS APPL ",
      "", "BRUX", "any text at all                                             COMMENT             "};
  int k = vf_concretize(vf_in("other", 0, 8));
  if (vf_concretize(vf_in("before", 0, 1))) line(other[k]);
  char *a = line("  4027881.8478   306998.2610  4919498.6554                  APPROX POSITION XYZ ");
  int i = vf_concretize(vf_in("which", 0, 2));
  vf_chars(a + 14 * i + 1, 1, " -1", "sign");
  vf_chars(a + 14 * i + 2, 7, dg, "d");
  vf_chars(a + 14 * i + 10, 4, dg, "d");
  line(other[k]);
  line("G    4 C1C L1C C2W L2W                                      SYS / # / OBS TYPES ");
  line(END);
  errno = ERANGE;
  ObservationRnx f(vf_file());
  vf_assert_eq(f.x_approx(), value(a, 14), "approximate position: x");
  vf_assert_eq(f.y_approx(), value(a + 14, 14), "approximate position: y");
  vf_assert_eq(f.z_approx(), value(a + 28, 14), "approximate position: z");
  vf_assert(f.max_obs() == 4, "observation types behind other lines");
}
