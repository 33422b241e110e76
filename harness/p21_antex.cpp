// property: P21
// bound: two entries of any content behind up to 40 others; up to three frequencies
// sources: antex.cpp antenna.cpp satellite.cpp satsys.cpp gnssobs.cpp nvarstr.cpp
// model: stubs/ifstream.cpp
// flags: -I@/stubs
// option: lia=1
#include "vf.h"
#include "vfile.h"
#include "ggdatetime/datetime_read.hpp"
#include "antex.hpp"
using namespace ngpt;
typedef SATELLITE_SYSTEM S;
static char line_[64][84];
static int nline_;
static bool padded_; // lines are padded with blanks to 80 columns
static char *line(const char *label) {
  char *t = line_[nline_++];
  std::memset(t, ' ', 60);
  long n = std::strlen(label);
  std::memset(t + 60, ' ', 20);
  std::memcpy(t + 60, label, n);
  t[padded_ ? 80 : 60 + n] = 0;
  vf_line(t, padded_ ? 80 : 60 + n);
  return t;
}
static void put(char *t, const char *s) { std::memcpy(t, s, std::strlen(s)); }
static void begin() {
  vf_begin();
  nline_ = 0;
  padded_ = false;
}
static char *text(int k) { return const_cast<char *>(vf_f_text[k]); }
static void header(bool padded = false) {
  begin();
  padded_ = padded;
  put(line("ANTEX VERSION / SYST"), "     1.4            M");
  put(line("PCV TYPE / REFANT"), "A");
  line("END OF HEADER");
}
// frequency f of antenna k: offsets are 100 k + 10 f + 1, 2, 3
static void frequency(int k, int f) {
  put(line("START OF FREQUENCY") + 3, f == 0 ? "G01" : f == 1 ? "R02" : "E05");
  char *t = line("NORTH / EAST / UP");
  for (int i = 0; i < 3; i++) {
    char b[8] = "000.25";
    b[0] = '0' + k, b[1] = '0' + f, b[2] = '1' + i;
    put(t + 4 + 10 * i, b);
  }
  put(line("") + 3, "NOAZI    0.00   -0.10   -0.20");
  line("END OF FREQUENCY");
}
static char *open_block() {
  line("START OF ANTENNA");
  char *t = line("TYPE / SERIAL NO");
  line("METH / BY / # / DATE");
  put(line("DAZI") + 2, "   0.0");
  put(line("ZEN1 / ZEN2 / DZEN") + 2, "   0.0  90.0   5.0");
  put(line("# OF FREQUENCIES"), "     1");
  return t;
}
static char *block(int k) {
  char *t = open_block();
  frequency(k, 0);
  line("END OF ANTENNA");
  return t;
}
static bool is(const AntennaPco &p, int k, int f) {
  return p.__dn == 100 * k + 10 * f + 1.25 && p.__de == 100 * k + 10 * f + 2.25 && p.__du == 100 * k + 10 * f + 3.25 &&
         p.__ssys == (f == 0 ? S::gps : f == 1 ? S::glonass : S::galileo) && p.__otype.band() == (f == 0 ? 1 : f == 1 ? 2 : 5);
}

// ------------------------------------------------------- receiver antennas
// model and dome (20 columns) and serial number (20 columns)
static char antenna_[3][41];
static bool serial_[3];
static void antenna(int k) {
  char *t = antenna_[k];
  t[40] = 0;
  std::memset(t, ' ', 40);
  vf_chars(t, 1, "ABC", "model");
  vf_chars(t + 1, 14, " ABC012-", "model");
  vf_chars(t + 16, 4, "ABC012-", "dome");
  int w = vf_concretize(vf_in("serial", 0, 2));
  serial_[k] = w != 0;
  if (w == 1) vf_chars(t + 20, 1, "AB12", "first"), vf_chars(t + 21, 19, " AB12", "serial");
  if (w == 2) vf_chars(t + 39, 1, "AB12", "last");
}
static void similar(int k) { // random search only
  if (vf_symbolic()) return;
  if (vf_bool("same model")) std::memcpy(antenna_[k], antenna_[2], 20);
  if (serial_[k] && serial_[2] && vf_bool("same serial")) std::memcpy(antenna_[k] + 20, antenna_[2] + 20, 20);
}
static bool model_eq(int k) { return std::memcmp(antenna_[k], antenna_[2], 20) == 0; }
static bool serial_eq(int k) { return serial_[k] && serial_[2] && std::memcmp(antenna_[k] + 20, antenna_[2] + 20, 20) == 0; }
static ReceiverAntenna wanted() {
  ReceiverAntenna a(antenna_[2]);
  if (serial_[2]) a.set_serial_nr(antenna_[2] + 20);
  return a;
}
CONTRACT(receiver) {
  header(true);
  for (int k = 0; k < 3; k++) antenna(k);
  similar(0);
  similar(1);
  for (int k = 0; k < 2; k++) std::memcpy(block(k + 1), antenna_[k], 40);
  bool must = vf_concretize(vf_in("serial must match", 0, 1));
  Antex atx(vf_file());
  AntennaPcoList l;
  int r = atx.get_antenna_pco(wanted(), l, must);
  auto &v = l.__vecref__();
  if (model_eq(0) && serial_eq(0)) {
    vf_assert(r == 0 && v.size() == 1 && is(v[0], 1, 0), "offsets of the antenna with this serial number (first entry)");
  } else if (model_eq(1) && serial_eq(1)) {
    vf_assert(r == 0 && v.size() == 1 && is(v[0], 2, 0), "offsets of the antenna with this serial number (second entry)");
  } else {
    bool a = model_eq(0) && !serial_[0], b = model_eq(1) && !serial_[1];
    if (must || (!a && !b)) {
      vf_assert(r > 0 && v.size() == 0, "no antenna matches: failure is reported");
    } else {
      vf_assert(r == 0 && v.size() == 1, "the entry for all antennas of the type is used");
      vf_assert((a && is(v[0], 1, 0)) || (b && is(v[0], 2, 0)), "offsets of the entry for all antennas of the type");
    }
  }
}

// ------------------------------------------------------- satellite antennas
struct Sat {
  char sys;
  int prn, svn;
  bool has_svn, has_cospar, open;
  int64_t d0, s0, d1, s1;
  const char *type, *from, *to;
};
static long digits(const char *p, int n) {
  char b[8];
  std::memcpy(b, p, n);
  b[n] = 0;
  return std::strtol(b, nullptr, 10);
}
static void any_date(char *t) {
  const char d[] = "0123456789";
  put(t, "  2000     0     0     0     0    0.0000000");
  vf_chars(t + 4, 2, d, "year");
  vf_chars(t + 11, 1, d, "month");
  vf_chars(t + 17, 1, d, "day");
  vf_chars(t + 22, 1, "01", "hour");
  vf_chars(t + 23, 1, d, "hour");
  vf_chars(t + 29, 1, d, "minute");
  vf_chars(t + 31, 2, d, "second");
  vf_chars(t + 34, 1, d, "fraction");
  vf_assume(vf_date_exists(digits(t + 2, 4), digits(t + 11, 1), digits(t + 17, 1)));
}
static void date_of(const char *t, int64_t &d, int64_t &s) {
  d = vf_date_mjd(digits(t + 2, 4), digits(t + 11, 1), digits(t + 17, 1));
  s = digits(t + 22, 2) * 3600 + digits(t + 28, 2) * 60 + digits(t + 31, 2);
}
// the entry of a satellite; k: number of the entry
static Sat satellite(int k, bool fields, const char *letters) {
  const char dg[] = "0123456789";
  Sat r;
  char *t = open_block();
  r.type = t;
  vf_chars(t, 15, "BLOCK IVR-+", "type");
  r.has_svn = fields;
  r.has_cospar = fields;
  vf_chars(t + 20, 1, letters, "system");
  vf_chars(t + 21, 2, dg, "prn");
  if (r.has_svn) t[40] = t[20], vf_chars(t + 41, 3, dg, "svn");
  if (r.has_cospar) vf_chars(t + 50, 4, dg, "cospar"), t[54] = '-', vf_chars(t + 55, 3, dg, "cospar"), vf_chars(t + 58, 1, "ABCD", "cospar");
  r.open = vf_concretize(vf_in("no end", 0, 1));
  char *f = line("VALID FROM");
  any_date(f);
  r.from = f;
  date_of(f, r.d0, r.s0);
  r.d1 = r.s1 = 0;
  if (!r.open) {
    char *u = line("VALID UNTIL");
    any_date(u);
    r.to = u;
    date_of(u, r.d1, r.s1);
  }
  frequency(k, 0);
  line("END OF ANTENNA");
  r.sys = t[20];
  r.prn = digits(t + 21, 2);
  r.svn = r.has_svn ? digits(t + 41, 3) : -1;
  return r;
}
static int64_t day_, sec_;
static datetime<seconds> epoch(const Sat *r = nullptr) {
  day_ = vf_in("day", vf_symbolic() ? 0 : 51500, vf_symbolic() ? 1000000 : 88000);
  sec_ = vf_in("second", 0, 86399);
  if (!vf_symbolic() && r && vf_bool("limit")) {
    bool e = vf_bool("upper") && !r->open;
    day_ = e ? r->d1 : r->d0;
    sec_ = e ? r->s1 : r->s0;
  }
  return datetime<seconds>(modified_julian_day(day_), seconds(sec_));
}
static bool holds(const Sat &r, char sys, int prn) {
  return (r.sys == sys) & (r.prn == prn) & ((r.d0 < day_) | ((r.d0 == day_) & (r.s0 <= sec_))) &
         (r.open | (day_ < r.d1) | ((day_ == r.d1) & (sec_ <= r.s1)));
}
static void check_info(Satellite &s, const Sat &r) {
  vf_assert(satsys_to_char(s.system()) == r.sys && s.prn() == r.prn, "system and number of the satellite");
  vf_assert(s.svn() == r.svn, "vehicle number of the entry");
  char c[11] = {}, t[21];
  if (r.has_cospar) std::memcpy(c, r.type + 50, 9);
  vf_assert(std::strncmp(s.cospar(), c, 11) == 0, "COSPAR designation of the entry");
  std::memcpy(t, r.type, 20);
  t[20] = 0;
  vf_assert(std::strncmp(s.antenna().__underlying_char__(), t, 21) == 0, "antenna type of the entry");
}
static Sat two_[2];
static char sys_;
static int prn_;
static void two(bool all_fields) {
  header(true);
  two_[0] = satellite(1, true, "GE");
  two_[1] = satellite(2, all_fields, "GR");
  sys_ = vf_concretize(vf_in("system asked", 0, 1)) ? 'G' : 'E';
  prn_ = vf_in("prn asked", 0, 99);
  if (!vf_symbolic() && vf_bool("present")) prn_ = two_[0].prn, sys_ = two_[0].sys;
  if (!vf_symbolic() && vf_bool("present2")) prn_ = two_[1].prn, sys_ = two_[1].sys;
}
CONTRACT(satellite_offsets) {
  two(true);
  datetime<seconds> t = epoch(&two_[0]);
  Antex atx(vf_file());
  AntennaPcoList l;
  auto &v = l.__vecref__();
  v.emplace_back(ObservationCode(), S::gps, 7, 7, 7);
  int r = atx.get_antenna_pco(prn_, char_to_satsys(sys_), t, l);
  if (holds(two_[0], sys_, prn_)) {
    vf_assert(r == 0 && v.size() == 1 && is(v[0], 1, 0), "offsets of the first entry valid at the epoch");
  } else if (holds(two_[1], sys_, prn_)) {
    vf_assert(r == 0 && v.size() == 1 && is(v[0], 2, 0), "offsets of the second entry if only that is valid");
  } else {
    vf_assert(r > 0 && v.size() == 0, "failure when no entry of the satellite is valid at the epoch");
  }
}
CONTRACT(satellite_info) {
  two(vf_concretize(vf_in("optional fields", 0, 1)));
  datetime<seconds> t = epoch(&two_[0]);
  Antex atx(vf_file());
  Satellite s;
  int r = atx.get_satellite_info(prn_, char_to_satsys(sys_), t, s);
  if (holds(two_[0], sys_, prn_)) {
    vf_assert(r == 0, "the first entry valid at the epoch is found");
    check_info(s, two_[0]);
  } else if (holds(two_[1], sys_, prn_)) {
    vf_assert(r == 0, "the second entry is found if only that is valid");
    check_info(s, two_[1]);
  } else {
    vf_assert(r > 0, "failure when no entry of the satellite is valid at the epoch");
  }
}
// any system
CONTRACT(satellite_system) {
  header(true);
  Sat e = satellite(1, false, "GRECJSI");
  static const S systems[] = {S::gps, S::glonass, S::galileo, S::beidou, S::qzss, S::sbas, S::irnss, S::mixed};
  S s = systems[vf_concretize(vf_in("system asked", 0, 7))];
  int prn = vf_i32("prn asked");
  if (!vf_symbolic() && vf_bool("present")) prn = e.prn;
  datetime<seconds> t = epoch(&e);
  Antex atx(vf_file());
  Satellite sv;
  int r = atx.get_satellite_info(prn, s, t, sv);
  if (s != S::mixed && holds(e, satsys_to_char(s), prn)) {
    vf_assert(r == 0, "the entry of the satellite is found");
    check_info(sv, e);
  } else {
    vf_assert(r > 0, "failure when there is no valid entry of the satellite");
  }
}

// ---------------------------------------------------- contents of an entry
// any systems, bands and offsets; optional lines; values of the accuracy of
// the offsets (FREQ RMS) between or behind the frequencies
static void offset(char *p) {
  vf_chars(p, 1, " -", "sign");
  vf_chars(p + 1, 3, "0123456789", "d");
  p[4] = '.';
  vf_chars(p + 5, 2, "0123456789", "d");
}
static double value(const char *p) {
  char b[11];
  std::memcpy(b, p, 10);
  b[10] = 0;
  return std::strtod(b, nullptr);
}
static void rms() {
  put(line("START OF FREQ RMS") + 3, "G01");
  put(line("NORTH / EAST / UP") + 4, "  9.00      9.00      9.00");
  put(line("") + 3, "NOAZI    9.00    9.00    9.00");
  line("END OF FREQ RMS");
}
static const char *of_[3], *at_[3];
CONTRACT(offsets) {
  header(vf_concretize(vf_in("padded", 0, 1)));
  std::memcpy(block(1), "OTHER           NONE", 20);
  int n = vf_concretize(vf_in("frequencies", 0, 3));
  bool other = vf_concretize(vf_in("comments", 0, 1));
  int accuracy = vf_concretize(vf_in("accuracy", 0, 2));
  line("START OF ANTENNA");
  put(line("TYPE / SERIAL NO"), "MODEL           NONE");
  line("METH / BY / # / DATE");
  line("DAZI");
  line("ZEN1 / ZEN2 / DZEN");
  line("# OF FREQUENCIES")[5] = '0' + n;
  if (other) put(line("SINEX CODE"), "IGS14_2000"), put(line("COMMENT"), "START OF FREQUENCY");
  for (int i = 0; i < n; i++) {
    char *t = line("START OF FREQUENCY");
    vf_chars(t + 3, 1, i == 1 ? "GRECJSI" : "E", "system");
    t[4] = i ? ' ' : '0';
    vf_chars(t + 5, 1, "123456789", "band");
    of_[i] = t;
    t = line("NORTH / EAST / UP");
    for (int j = 0; j < 3; j++) offset(t + 3 + 10 * j);
    at_[i] = t;
    line("");
    line("END OF FREQUENCY");
    if (accuracy == 1 || (accuracy == 2 && i == n - 1)) rms();
  }
  line("END OF ANTENNA");
  Antex atx(vf_file());
  AntennaPcoList l;
  ReceiverAntenna a("MODEL           NONE");
  int r = atx.get_antenna_pco(a, l);
  auto &v = l.__vecref__();
  vf_assert(r == 0 && (int)v.size() == n, "every frequency of the entry is returned");
  for (int i = 0; i < n; i++) {
    vf_assert(satsys_to_char(v[i].__ssys) == of_[i][3] && v[i].__otype.band() == of_[i][5] - '0', "system and band of the frequency, in order");
    vf_assert_eq(v[i].__dn, value(at_[i]), "north or x offset of columns 1-10");
    vf_assert_eq(v[i].__de, value(at_[i] + 10), "east or y offset of columns 11-20");
    vf_assert_eq(v[i].__du, value(at_[i] + 20), "up or z offset of columns 21-30");
  }
}
// any number of other antennas before the wanted one
// @option unroll=6000
CONTRACT(late_entry) {
  header();
  int n = vf_concretize(vf_in("others", 0, 8)) * 5;
  bool sat = vf_concretize(vf_in("satellite", 0, 1));
  for (int i = 0; i < n; i++) {
    // (without the labels of its contents an entry is skipped all the same)
    vf_line("                                                            START OF ANTENNA", 76);
    vf_line("OTHER               G55                                     TYPE / SERIAL NO", 76);
    vf_line("                                                            METH / BY / # / DATE", 80);
    vf_line("  2000     1     1     0     0    0.0000000                 VALID FROM", 70);
    vf_line("                                                            START OF FREQUENCY", 78);
    vf_line("                                                            END OF ANTENNA", 74);
  }
  vf_assume(vf_date_exists(2000, 1, 1));
  line("START OF ANTENNA");
  put(line("TYPE / SERIAL NO"), "MODEL           NONEG07");
  line("METH / BY / # / DATE");
  line("DAZI");
  line("ZEN1 / ZEN2 / DZEN");
  line("# OF FREQUENCIES")[5] = '1';
  put(line("VALID FROM"), "  2000     1     1     0     0    0.0000000");
  frequency(2, 0);
  line("END OF ANTENNA");
  Antex atx(vf_file());
  AntennaPcoList l;
  ReceiverAntenna a("MODEL           NONE");
  a.set_serial_nr("G07");
  datetime<seconds> t(modified_julian_day(vf_date_mjd(2000, 1, 1)), seconds(5));
  int r = sat ? atx.get_antenna_pco(7, S::gps, t, l) : atx.get_antenna_pco(a, l, true);
  vf_assert(r == 0 && l.__vecref__().size() == 1 && is(l.__vecref__()[0], 2, 0), "the entry is found behind any others");
}

// -------------------------------------------------------------- incomplete
static char *plain_satellite(int k, const char *id) {
  char *t = open_block();
  put(t, "BLOCK IIA");
  put(t + 20, id);
  put(line("VALID FROM"), "  2000     1     1     0     0    0.0000000");
  put(line("VALID UNTIL"), "  2004     2     3     0     0    0.0000000");
  frequency(k, 0);
  line("END OF ANTENNA");
  return t;
}
static datetime<seconds> inside() {
  vf_assume(vf_date_exists(2000, 1, 1) & vf_date_exists(2004, 2, 3));
  vf_assume(vf_date_mjd(2000, 1, 1) < vf_date_mjd(2004, 2, 3));
  return datetime<seconds>(modified_julian_day(vf_date_mjd(2000, 1, 1)), seconds(5));
}
static char cut_[84];
static void cut_last(int n) {
  long k = vf_f_nl - 1, m = vf_f_len[k];
  if (n > m) n = m;
  std::memcpy(cut_, vf_f_text[k], n);
  vf_f_text[k] = cut_;
  vf_f_len[k] = n;
}
// the file ends anywhere, with or without a final newline
CONTRACT(truncated) {
  header();
  bool sat = vf_concretize(vf_in("satellite", 0, 1));
  int first = vf_f_nl;
  if (sat) plain_satellite(1, "G07"); else put(block(1), "MODEL           NONE");
  int all = vf_f_nl;
  int nl = vf_concretize(vf_in("lines", 0, all - first));
  vf_f_nl = first + nl;
  static const int columns[] = {0, 9, 22, 41, 60, 66, 90};
  if (nl) cut_last(columns[vf_concretize(vf_in("columns", 0, 6))]);
  vf_f_nonl = vf_concretize(vf_in("no final newline", 0, 1));
  Antex atx(vf_file());
  AntennaPcoList l;
  auto &v = l.__vecref__();
  ReceiverAntenna a("MODEL           NONE");
  datetime<seconds> t = inside();
  int r = sat ? atx.get_antenna_pco(7, S::gps, t, l) : atx.get_antenna_pco(a, l);
  vf_assert(r > 0 || (v.size() == 1 && is(v[0], 1, 0)), "no offsets are invented from an incomplete entry");
  vf_assert(r == 0 || nl < all - first || vf_f_len[vf_f_nl - 1] < 74, "a complete entry is read");
  Satellite s;
  vf_assert(atx.get_satellite_info(8, S::gps, t, s) > 0, "an absent satellite is not found");
}
// a label of the entry is damaged
CONTRACT(label_damaged) {
  header();
  bool sat = vf_concretize(vf_in("satellite", 0, 1));
  int first = vf_f_nl;
  if (sat) plain_satellite(1, "G07"); else put(block(1), "MODEL           NONE");
  static const int lines[] = {0, 1, 2, 3, 4, 5, 6, 7};
  int w = first + lines[vf_concretize(vf_in("line", 0, 7))];
  if (sat) vf_assume(w != first + 7); // (the end of validity may be missing)
  int i = vf_concretize(vf_in("column", 0, 7));
  vf_assume(60 + i < vf_f_len[w]);
  text(w)[60 + i] = '+';
  Antex atx(vf_file());
  AntennaPcoList l;
  ReceiverAntenna a("MODEL           NONE");
  datetime<seconds> t = inside();
  int r = sat ? atx.get_antenna_pco(7, S::gps, t, l) : atx.get_antenna_pco(a, l);
  vf_assert(r > 0, "an entry without its labels is reported as an error");
}
// a field of the entry is blank or unreadable
CONTRACT(field_damaged) {
  header();
  bool sat = vf_concretize(vf_in("satellite", 0, 1));
  int first = vf_f_nl;
  if (sat) plain_satellite(1, "G07"); else put(block(1), "MODEL           NONE");
  static const int ls[] = {5, 6, 6, 7, 7, 7, 6, 7, 8, 8, 9, 9, 9}, cs[] = {0, 3, 4, 3, 13, 23, 0, 0, 3, 4, 3, 13, 23}, ns[] = {6, 1, 2, 7, 7, 7, 43, 43, 1, 2, 7, 7, 7};
  int w = sat ? vf_concretize(vf_in("field of a satellite", 6, 12)) : vf_concretize(vf_in("field", 0, 5));
  std::memset(text(first + ls[w]) + cs[w], vf_concretize(vf_in("text", 0, 1)) ? 'x' : ' ', ns[w]);
  Antex atx(vf_file());
  AntennaPcoList l;
  ReceiverAntenna a("MODEL           NONE");
  datetime<seconds> t = inside();
  int r = sat ? atx.get_antenna_pco(7, S::gps, t, l) : atx.get_antenna_pco(a, l);
  vf_assert(r > 0, "an unreadable entry is reported as an error");
}
// a date of validity that does not exist
CONTRACT(no_such_date) {
  header();
  int first = vf_f_nl;
  plain_satellite(1, "G07");
  put(text(first + 6 + vf_concretize(vf_in("end", 0, 1))) + 10, "13");
  vf_assume(!vf_date_exists(2000, 13, 1) & !vf_date_exists(2004, 13, 3));
  Antex atx(vf_file());
  Satellite s;
  vf_assert(atx.get_satellite_info(7, S::gps, inside(), s) > 0, "an entry without a valid interval is not used");
}

// ------------------------------------------------------------ sequences
static int ask(Antex &x, int what, AntennaPcoList &l, const datetime<seconds> &t) {
  ReceiverAntenna a("MODEL           NONE"), b("ABSENT          NONE");
  if (what == 0) return x.get_antenna_pco(a, l);
  if (what == 1) return x.get_antenna_pco(b, l);
  if (what == 2) return x.get_antenna_pco(7, S::gps, t, l);
  return x.get_antenna_pco(8, S::gps, t, l);
}
// an answer does not depend on earlier questions, also when the file ends in
// the middle of an entry
CONTRACT(earlier_questions) {
  header();
  put(block(1), "MODEL           NONE");
  plain_satellite(2, "G07");
  int damage = vf_concretize(vf_in("incomplete entry at the end", 0, 3));
  if (damage) put(block(3), "LAST            NONE"), vf_f_nl = vf_f_nl - damage * 3;
  datetime<seconds> t = inside();
  Antex atx(vf_file());
  AntennaPcoList l, l2;
  auto &v = l2.__vecref__();
  ask(atx, vf_concretize(vf_in("first", 0, 3)), l, t);
  int q = vf_concretize(vf_in("second", 0, 3));
  int r = ask(atx, q, l2, t);
  if (q == 2) vf_assert(r == 0 && v.size() == 1 && is(v[0], 2, 0), "the satellite's offsets");
  if (q == 0 && !damage) vf_assert(r == 0 && v.size() == 1 && is(v[0], 1, 0), "the antenna's offsets");
  if (q == 1 || q == 3) vf_assert(r > 0 && v.size() == 0, "an absent antenna is not found");
}
// a file without antennas
CONTRACT(no_antennas) {
  header();
  datetime<seconds> t = inside();
  Antex atx(vf_file());
  AntennaPcoList l;
  vf_assert(ask(atx, vf_concretize(vf_in("question", 0, 3)), l, t) > 0, "nothing is found in a file without antennas");
}

// ---------------------------------------------------------------- opening
static bool opens(bool later) {
  try {
    if (later) {
      Antex atx;
      atx.reset_to_file(vf_file());
    } else {
      Antex atx(vf_file());
    }
    return true;
  } catch (std::runtime_error &) {
    return false;
  }
}
CONTRACT(header_first) {
  begin();
  char *t = line("ANTEX VERSION / SYST");
  put(t, "     1.4");
  t[7] = '0' + vf_concretize(vf_in("version", 0, 9));
  t[20] = vf_i8("system");
  vf_assume(t[20] != '\n' && t[20] != 0);
  char *u = line("PCV TYPE / REFANT");
  u[0] = vf_i8("type");
  vf_assume(u[0] != '\n');
  line("COMMENT");
  line("END OF HEADER");
  bool known = t[20] == 'G' || t[20] == 'R' || t[20] == 'S' || t[20] == 'E' || t[20] == 'C' || t[20] == 'J' || t[20] == 'M' || t[20] == 'I';
  vf_assert(opens(vf_concretize(vf_in("later", 0, 1))) == ((t[7] == '4' || t[7] == '3') && known && u[0] == 'A'), "a file is accepted iff its version, system and type are those of the format");
}
// @option unroll=1100
CONTRACT(header_length) {
  begin();
  put(line("ANTEX VERSION / SYST"), "     1.4            M");
  put(line("PCV TYPE / REFANT"), "A");
  int n = vf_concretize(vf_in("comments", 0, 12)) * 83;
  for (int i = 0; i < n; i++) vf_line("x                                                           COMMENT", 67);
  line("END OF HEADER");
  vf_assert(opens(false), "a header of any length up to the limit is accepted");
}
CONTRACT(header_incomplete) {
  header();
  vf_f_nl = vf_concretize(vf_in("lines", 0, 2));
  if (vf_concretize(vf_in("early end", 0, 1)) && vf_f_nl == 2) {
    // a line too short to have a label, behind one with another label
    put(line("x") + 10, "END OF HEADER");
    vf_line("x", 1);
  }
  vf_f_missing = vf_concretize(vf_in("missing", 0, 1));
  vf_f_nonl = vf_concretize(vf_in("no final newline", 0, 1));
  vf_assert(!opens(vf_concretize(vf_in("later", 0, 1))), "a file without the header of the format is rejected");
}
