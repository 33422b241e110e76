// property: P18
// bound: files of two records (reading, skipping, peeking); searches: none
// sources: navrnx.cpp satsys.cpp nvarstr.cpp gpsnav.cpp galnav.cpp bdsnav.cpp glonav.cpp
// model: stubs/ifstream.cpp
// flags: -I@/stubs
// option: divk=1
// option: lia=1
// fixup: constexpr double F_CLOCK=>const double F_CLOCK
#include "vf.h"
#include "vfile.h"
#include "ggdatetime/datetime_read.hpp"
#include "navrnx.hpp"
using namespace ngpt;
typedef SATELLITE_SYSTEM S;
static const char letters[] = "GRSECJIM";
static int nlines(S s) { return s == S::mixed ? 0 : s == S::glonass || s == S::sbas ? 4 : 8; }
static char head_[3][81];
static void header() {
  vf_begin();
  for (int i = 0; i < 2; i++) std::memset(head_[i], ' ', 80), head_[i][80] = 0;
  std::memcpy(head_[0] + 5, "3.04", 4);
  head_[0][20] = 'N';
  head_[0][40] = 'M';
  std::memcpy(head_[1] + 60, "END OF HEADER", 13);
  vf_line(head_[0], 80);
  vf_line(head_[1], 80);
}

// ---------------------------------------------------------------- searching
// A file of any number of records.  In the verifier the three primitives are
// replaced by their contracts over this sequence (each is verified on files
// below); natively the file is written out and read by the real code.
struct Raw { int32_t a, b; };
static Raw *r_;
static int64_t n_, p_;
static bool tidy_; // random search: likely contents
static bool cut_; // the last record is incomplete
static S sys(int64_t i) { return static_cast<S>(r_[i].a & 7); }
static int prn(int64_t i) { return 1 + (r_[i].a >> 3 & 63); }
static bool bad(int64_t i) { return (r_[i].a >> 9 & 15) == 1 || sys(i) == S::mixed || (cut_ && i == n_ - 1); }
static int health(int64_t i) { return r_[i].a >> 13 & 1; }
static int64_t fit(int64_t i) { return r_[i].a >> 14 & 7; }
static long day(int64_t i) { return 58853L + (r_[i].a >> 17 & 3); }
static long sec(int64_t i) { return r_[i].b & 0xffff; }
static long dtoe(int64_t i) { return (r_[i].b >> 16 & 1023) - 512L; }

extern "C" {
S stub_peak(NavigationRnx *, int &st) {
  if (p_ == n_) {
    st = -1;
    return S::mixed;
  }
  st = 0;
  return sys(p_);
}
int stub_read(NavigationRnx *, NavDataFrame &f) {
  if (p_ == n_) return -1;
  int64_t i = p_;
  if (bad(i)) return 6;
  p_ = p_ + 1;
  f.sys__ = sys(i);
  f.prn__ = prn(i);
  f.toc__ = datetime<seconds>(modified_julian_day(day(i)), seconds(sec(i)));
  f.toe__ = f.toc__;
  f.toe__.add_seconds(seconds(dtoe(i)));
  f.data__[6] = f.data__[24] = health(i);
  f.data__[28] = fit(i);
  return 0;
}
int stub_ignore(NavigationRnx *) {
  if (p_ == n_) return -1;
  if (sys(p_) == S::mixed || (cut_ && p_ == n_ - 1)) return 2;
  p_ = p_ + 1;
  return 0;
}
}
#ifdef VF_NATIVE
static char body_[1200][81];
static void put(char *t, double v) {
  char b[40];
  std::snprintf(b, sizeof b, "%19.12E", v);
  std::memcpy(t, b, 19);
}
static void write_records() {
  int m = 0;
  for (int64_t i = 0; i < n_; i++) {
    S s = sys(i);
    int k = s == S::mixed ? 3 : nlines(s);
    for (int l = 0; l < k; l++, m++) {
      char *t = body_[m];
      std::memset(t, ' ', 80);
      t[80] = 0;
      for (int j = !l; j < 4; j++) put(t + 4 + 19 * j, 0);
      if (!l) {
        std::snprintf(t, 24, "%c%02d 2020 01 %02ld %02ld %02ld %02ld", letters[0], prn(i), day(i) - 58848, sec(i) / 3600, sec(i) / 60 % 60, sec(i) % 60);
        t[0] = s == S::mixed ? 'M' : satsys_to_char(s);
        t[23] = ' ';
        if ((r_[i].a >> 9 & 15) == 1) t[9] = 'x';
        if (s == S::glonass) put(t + 4 + 57, (double)((((day(i) - 58853) * 86400 + sec(i) + dtoe(i)) % 604800 + 604800) % 604800));
      }
      if (s == S::glonass && l == 1) put(t + 4 + 57, health(i));
      if (s != S::glonass && l == 6) put(t + 4 + 19, health(i));
      if (s != S::glonass && l == 7) put(t + 4 + 19, fit(i));
      vf_line(t, 80);
    }
    if (cut_ && i == n_ - 1 && s != S::mixed) vf_f_nl--;
  }
}
#endif
static void any_file() {
  header();
  n_ = vf_symbolic() ? vf_in("records", 0, 1000000000) : vf_in("records", 0, 60);
  r_ = (Raw *)vf_vec("record", n_, sizeof(Raw), "0:4:int,4:4:int");
  cut_ = vf_bool("last record cut");
  p_ = 0;
  tidy_ = vf_bool("tidy");
  if (vf_symbolic()) vf_assume(!tidy_);
#ifdef VF_NATIVE
  // random search: few satellites, so that searches find some
  for (int64_t i = 0; tidy_ && i < n_; i++) {
    if (sys(i) == S::mixed && i % 3) r_[i].a &= ~7;
    if (i % 4) r_[i].a &= ~(7 << 6 | 15 << 9 | 1 << 13);
  }
  write_records();
#endif
}
static bool matches(int64_t i, S s, int pr) { return (sys(i) == s) & ((pr == -1) | (prn(i) == pr)); }
// natively: what a search has to consume
static void simulate(bool (*stop)(int64_t), S s) {
  if (vf_symbolic()) return;
  for (p_ = 0; p_ < n_; p_++) {
    if (sys(p_) == s ? bad(p_) : sys(p_) == S::mixed || (cut_ && p_ == n_ - 1)) return;
    if (stop(p_)) {
      p_++;
      return;
    }
  }
}
static S s_;
static int pr_;
static int64_t t_; // milliseconds since 2020-01-05
static bool stop_match(int64_t i) { return matches(i, s_, pr_); }
static bool none(bool (*q)(int64_t), int64_t hi) {
  if (!vf_symbolic()) {
    for (int64_t i = 0; i < hi; i++)
      if (q(i)) return false;
    return true;
  }
  int64_t j = vf_i64("any record");
  if (j < 0 || j >= hi) return true;
  return !q(j);
}
static S any_system() {
  int8_t i = vf_i8("system");
  if (!vf_symbolic()) i &= 7;
  vf_assume(i >= 0 && i < 8);
  return static_cast<S>(i);
}
static bool is_record(const NavDataFrame &f, int64_t i) {
  return f.system() == sys(i) && f.prn() == prn(i) && f.toc().mjd().as_underlying_type() == day(i) && f.toc().sec().as_underlying_type() == sec(i);
}
static void check_error(int r) {
  vf_assert(p_ < n_ && (bad(p_) || (cut_ && p_ == n_ - 1)), "an error is reported only for a record that is damaged");
}

// @confirm
// @stub _ZN4ngpt13NavigationRnx11peak_satsysERi=stub_peak
// @stub _ZN4ngpt13NavigationRnx16read_next_recordERNS_12NavDataFrameE=stub_read
// @stub _ZN4ngpt13NavigationRnx17ignore_next_blockEv=stub_ignore
CONTRACT(find_next) {
  any_file();
  s_ = any_system();
  pr_ = vf_in("prn", -1, 64);
  if (pr_ == 0) pr_ = -1;
  NavigationRnx nav(vf_file());
  NavDataFrame f;
  NavigationRnx::pos_type cur;
  NavigationRnx::pos_type before = nav.__istream.tellg();
  int r = nav.find_next(cur, f, s_, pr_);
  simulate(stop_match, s_);
  vf_assert(cur == before, "the position before the search is reported");
  if (r == 0) {
    vf_assert(p_ > 0 && matches(p_ - 1, s_, pr_), "the record found is of the requested satellite");
    vf_assert(is_record(f, p_ - 1), "the frame holds the record found");
    vf_assert(none(stop_match, p_ - 1), "no earlier record qualifies");
  } else if (r < 0) {
    vf_assert(p_ == n_, "end of file is reported only at the end");
    vf_assert(none(stop_match, n_), "no record qualifies");
  } else {
    check_error(r);
    vf_assert(none(stop_match, p_), "no record before the damaged one qualifies");
  }
  if (!vf_symbolic() && r == 0 && p_ < n_ && !bad(p_)) (vf_assert)(nav.read_next_record(f) == 0 && is_record(f, p_), "the stream is left behind the record found");
}

static int64_t toc_ms(int64_t i) { return ((day(i) - 58853) * 86400 + sec(i)) * 1000; }
static bool too_late(int64_t i) { return matches(i, s_, pr_) & (toc_ms(i) > t_ + 4 * 3600 * 1000); }
static bool valid(int64_t i) {
  bool m = matches(i, s_, pr_) & !health(i);
  int64_t from, to;
  if (s_ == S::glonass) {
    from = toc_ms(i) + (dtoe(i) - 900) * 1000;
    to = toc_ms(i) + (dtoe(i) + 900) * 1000;
  } else {
    from = toc_ms(i);
    to = from + (s_ == S::gps ? fit(i) : 4) * 3600 * 1000;
  }
  return m & (t_ >= from) & (t_ < to);
}
static bool stop_valid(int64_t i) { return too_late(i) | valid(i); }
static void search_valid(S s) {
  any_file();
  s_ = s;
  pr_ = vf_in("prn", 0, 64);
  if (pr_ == 0) pr_ = -1;
  int64_t td = vf_in("day", -1, 5), tm = vf_in("millisecond", 0, 86399999);
  t_ = td * 86400000 + tm;
  if (!vf_symbolic() && tidy_ && n_ > 0 && vf_in("boundary", 0, 3)) { // random search: at the ends of an interval
    int64_t i = vf_in("which", 0, n_ - 1), hours = vf_in("hours", 0, 7);
    pr_ = prn(i);
    t_ = toc_ms(i) + vf_in("off", -1, 1) + (vf_bool("late") ? -14400000 : s == S::glonass ? 1000 * (dtoe(i) + (hours % 2 ? 900 : -900)) : hours * 3600000);
    td = t_ < 0 ? -1 : t_ / 86400000;
    tm = t_ - td * 86400000;
  }
  datetime<milliseconds> t(modified_julian_day(58853 + td), milliseconds(tm));
  NavigationRnx nav(vf_file());
  NavDataFrame f;
  NavigationRnx::pos_type cur;
  int r = nav.find_next_valid(t, cur, f, s_, pr_);
  simulate(stop_valid, s_);
  if (r == 0) {
    vf_assert(p_ > 0 && valid(p_ - 1) && !too_late(p_ - 1), "the record found is healthy and valid for the epoch");
    vf_assert(is_record(f, p_ - 1), "the frame holds the record found");
    vf_assert(none(stop_valid, p_ - 1), "no earlier record qualifies");
  } else if (r < 0) {
    vf_assert(p_ == n_ || (p_ > 0 && too_late(p_ - 1)), "no record is reported only at the end or when the records are past the epoch");
    vf_assert(none(valid, p_), "no record up to there qualifies");
  } else {
    check_error(r);
    vf_assert(none(stop_valid, p_), "no record before the damaged one qualifies");
  }
}
// @option cost=8
// @confirm
// @stub _ZN4ngpt13NavigationRnx11peak_satsysERi=stub_peak
// @stub _ZN4ngpt13NavigationRnx16read_next_recordERNS_12NavDataFrameE=stub_read
// @stub _ZN4ngpt13NavigationRnx17ignore_next_blockEv=stub_ignore
CONTRACT(find_valid_gps) { search_valid(S::gps); }
// @confirm
// @stub _ZN4ngpt13NavigationRnx11peak_satsysERi=stub_peak
// @stub _ZN4ngpt13NavigationRnx16read_next_recordERNS_12NavDataFrameE=stub_read
// @stub _ZN4ngpt13NavigationRnx17ignore_next_blockEv=stub_ignore
CONTRACT(find_valid_galileo) { search_valid(S::galileo); }
// @confirm
// @stub _ZN4ngpt13NavigationRnx11peak_satsysERi=stub_peak
// @stub _ZN4ngpt13NavigationRnx16read_next_recordERNS_12NavDataFrameE=stub_read
// @stub _ZN4ngpt13NavigationRnx17ignore_next_blockEv=stub_ignore
CONTRACT(find_valid_beidou) { search_valid(S::beidou); }
// @option cost=9
// @confirm
// @stub _ZN4ngpt13NavigationRnx11peak_satsysERi=stub_peak
// @stub _ZN4ngpt13NavigationRnx16read_next_recordERNS_12NavDataFrameE=stub_read
// @stub _ZN4ngpt13NavigationRnx17ignore_next_blockEv=stub_ignore
CONTRACT(find_valid_glonass) { search_valid(S::glonass); }

// a system whose records carry no health information: an error, not a crash
// @stub _ZN4ngpt13NavigationRnx11peak_satsysERi=stub_peak
// @stub _ZN4ngpt13NavigationRnx16read_next_recordERNS_12NavDataFrameE=stub_read
// @stub _ZN4ngpt13NavigationRnx17ignore_next_blockEv=stub_ignore
CONTRACT(find_valid_other) {
  any_file();
  S s = any_system();
  vf_assume(s != S::gps && s != S::glonass && s != S::galileo && s != S::beidou);
  NavigationRnx nav(vf_file());
  NavDataFrame f;
  NavigationRnx::pos_type cur;
  int r = nav.find_next_valid(datetime<milliseconds>(modified_julian_day(58853), milliseconds(0)), cur, f, s, vf_in("prn", 1, 64));
  vf_assert(r != 0, "no record of another system is reported valid");
}

// ---------------------------------------------------------------- primitives
static char rec_[3][9][81];
static void plain_number(char *p, const char *v) { std::memcpy(p, v, 19); }
static void plain_record(int slot, S s) {
  int n = nlines(s);
  for (int k = 0; k < n; k++) {
    char *t = rec_[slot][k];
    std::memset(t, ' ', 80);
    t[80] = 0;
    for (int j = !k; j < 4; j++) plain_number(t + 4 + 19 * j, " 1.000000000000D+00");
    if (!k) {
      std::memcpy(t, "G01 2020 01 05 00 00 00", 23);
      t[0] = satsys_to_char(s);
      vf_chars(t + 2, 1, "123456789", "prn");
    }
    vf_line(t, 80);
  }
}
static S real_system(const char *name) {
  int64_t i = vf_concretize(vf_in(name, 0, 6));
  static const S all[] = {S::gps, S::glonass, S::sbas, S::galileo, S::beidou, S::qzss, S::irnss};
  return all[i];
}
// two records of any systems: read in order, then end of file; rewinding starts over
CONTRACT(read_in_order) {
  header();
  S a = real_system("first"), b = real_system("second");
  plain_record(0, a);
  plain_record(1, b);
  vf_assume(vf_date_exists(2020, 1, 5));
  vf_f_nonl = vf_concretize(vf_in("no final newline", 0, 1));
  NavigationRnx nav(vf_file());
  NavDataFrame f;
  for (int turn = 0; turn < 2; turn++) {
    vf_assert(nav.read_next_record(f) == 0, "a record is read");
    vf_assert(f.system() == a && f.prn() == rec_[0][0][2] - '0', "the first record comes first");
    NavigationRnx::pos_type here = nav.__istream.tellg();
    vf_assert(nav.read_next_record(f) == 0, "a record is read");
    vf_assert(f.system() == b && f.prn() == rec_[1][0][2] - '0', "the second record comes second");
    if (!vf_f_nonl) {
      vf_assert(nav.read_next_record(f) < 0, "end of file is reported at the end");
      nav.rewind(here);
      int st = 9;
      vf_assert(nav.peak_satsys(st) == b && st == 0, "the system of the next record is reported");
      vf_assert(nav.ignore_next_block() == 0, "a record is skipped");
      nav.peak_satsys(st);
      vf_assert(st < 0, "end of file is reported at the end");
      vf_assert(nav.ignore_next_block() < 0, "end of file is reported at the end");
      nav.rewind(here);
      vf_assert(nav.read_next_record(f) == 0 && f.system() == b, "rewinding to a position continues there");
    }
    nav.rewind();
    if (vf_f_nonl) break;
  }
}
// searching real text: the position before the search is reported
CONTRACT(search_position) {
  header();
  S a = real_system("first"), b = real_system("second");
  int64_t k = vf_concretize(vf_in("wanted", 0, 2));
  S w = k == 0 ? a : k == 1 ? b : a == S::gps ? S::galileo : S::gps;
  plain_record(0, a);
  plain_record(1, b);
  vf_assume(vf_date_exists(2020, 1, 5));
  NavigationRnx nav(vf_file());
  NavDataFrame f;
  NavigationRnx::pos_type before = nav.__istream.tellg(), cur = 0;
  bool valid = vf_concretize(vf_in("valid", 0, 1));
  if (valid) {
    int r = nav.find_next_valid(datetime<seconds>(modified_julian_day(58853), seconds(0)), cur, f, w, -1);
    if (w == S::gps || w == S::glonass || w == S::galileo || w == S::beidou) vf_assert(cur == before, "the position before the search is reported");
    vf_assert(r != 0, "no unhealthy record is reported valid");
  } else {
    int r = nav.find_next(cur, f, w, -1);
    vf_assert(cur == before, "the position before the search is reported");
    vf_assert((r == 0) == (w == a || w == b), "a record of the system is found if there is one");
    if (r == 0) vf_assert(f.system() == w && f.prn() == rec_[w != a][0][2] - '0', "it is the first one");
    if (r == 0 && w != a) vf_assert(nav.ignore_next_block() < 0, "the stream is left behind the record found");
  }
  nav.rewind(before);
  vf_assert(nav.read_next_record(f) == 0 && f.system() == a, "rewinding to a position continues there");
}
// skipping: every system's record has the right number of lines
CONTRACT(skip_in_order) {
  header();
  S a = real_system("first"), b = real_system("second");
  plain_record(0, a);
  plain_record(1, b);
  NavigationRnx nav(vf_file());
  int st = 9;
  vf_assert(nav.peak_satsys(st) == a && st == 0, "the system of the next record is reported");
  vf_assert(nav.ignore_next_block() == 0, "a record is skipped");
  vf_assert(nav.peak_satsys(st) == b && st == 0, "skipping stops at the next record");
}
// a block that is cut short
CONTRACT(skip_truncated) {
  header();
  S a = real_system("system");
  plain_record(0, a);
  vf_f_nl = vf_concretize(vf_in("lines", 3, 2 + nlines(a) - 1));
  NavigationRnx nav(vf_file());
  vf_assert(nav.ignore_next_block() != 0, "an incomplete record is not skipped silently");
}
// text that starts no record: an error, never a silent success without progress
CONTRACT(skip_garbage) {
  header();
  plain_record(0, S::gps);
  vf_chars(rec_[0][0], 1, " ABDFHKLMNOPQTUVWXYZ0123456789gre>*%\x80\xff", "letter");
  vf_f_len[2] = vf_concretize(vf_in("length", 0, 1)) * 80;
  NavigationRnx nav(vf_file());
  int st = 0;
  S s = nav.peak_satsys(st);
  vf_assert(st > 0 || (st == 0 && s == S::mixed && rec_[0][0][0] == 'M' && vf_f_len[2]), "an unknown system is reported as an error");
  vf_assert(nav.ignore_next_block() > 0, "a block of unknown length is not skipped");
}

// ---------------------------------------------------------------- header
static char lines_[1000][81];
static bool accepted() {
  try {
    NavigationRnx nav(vf_file());
    return true;
  } catch (std::runtime_error &) {
    return false;
  }
}
static bool opens() {
  try {
    NavigationRnx nav(vf_file());
    int st = 1;
    S s = nav.peak_satsys(st);
    vf_assert(st == 0 && s == S::gps, "records start behind the header");
    NavigationRnx::pos_type p = nav.__istream.tellg();
    nav.rewind();
    vf_assert(nav.__istream.tellg() == p, "rewinding goes behind the header");
    return true;
  } catch (std::runtime_error &) {
    return false;
  }
}
// any number of header lines
// @option unroll=1100
CONTRACT(header_of_any_length) {
  header();
  vf_f_nl = 1;
  int64_t n = vf_in("header lines", 0, 990);
  for (int i = 0; i < 998; i++) {
    char *t = lines_[i];
    std::memset(t, 'G', 60);
    std::memcpy(t + 60, "END OF HEADER", 14);
    t[60] = 'E' + (i != n);
    vf_line(t, 73);
  }
  vf_assert(opens(), "a well-formed header is accepted");
}
// any text in a header line that is not the last
CONTRACT(header_line) {
  header();
  vf_f_nl = 1;
  static char t[85];
  vf_bytes(t, 84, "line");
  bool end = true;
  for (int i = 0; i < 84; i++) {
    if (!vf_symbolic() && (!t[i] || t[i] == 10)) t[i] = ' ';
    vf_assume((t[i] != 0) & (t[i] != 10));
  }
  for (int i = 0; i < 13; i++) end = end & (t[60 + i] == "END OF HEADER"[i]);
  vf_assume(!end);
  int64_t n = vf_concretize(vf_in("length", 0, 84));
  vf_line(t, n);
  vf_line(head_[1], vf_concretize(vf_in("length of last", 73, 80)));
  vf_line("G", 1);
  vf_assert(opens(), "a well-formed header is accepted");
}
// the first line: number, 'N' in column 21, system in column 41
CONTRACT(header_first_line) {
  header();
  static char t[81];
  std::memset(t, ' ', 20);
  vf_chars(t + vf_concretize(vf_in("indent", 0, 8)), 1, "3x", "version");
  vf_bytes(t + 20, 60, "rest");
  for (int i = 20; i < 80; i++) {
    if (!vf_symbolic() && (!t[i] || t[i] == 10)) t[i] = ' ';
    vf_assume((t[i] != 0) & (t[i] != 10));
  }
  if (!vf_symbolic() && vf_bool("good")) t[20] = 'N', t[40] = 'E';
  int64_t n = vf_concretize(vf_in("length", 9, 80));
  vf_f_text[0] = t;
  vf_f_len[0] = n;
  vf_line("G", 1);
  bool number = std::memchr(t, '3', 20) != nullptr;
  bool good = number && n > 40 && t[20] == 'N' && (t[40] == 'G' || t[40] == 'R' || t[40] == 'S' || t[40] == 'E' || t[40] == 'C' || t[40] == 'J' || t[40] == 'I' || t[40] == 'M');
  vf_assert(opens() == good, "accepted exactly when version, type and system are those of a navigation file");
}
// a file that ends within the header, or does not exist
// @option unroll=1100
CONTRACT(header_truncated) {
  header();
  int64_t n = vf_concretize(vf_in("lines", 0, 2));
  vf_f_nl = n;
  if (n == 2) vf_f_len[1] = vf_concretize(vf_in("length", 0, 72));
  vf_f_nonl = vf_concretize(vf_in("no final newline", 0, 1));
  vf_f_missing = vf_concretize(vf_in("missing", 0, 1));
  vf_assert(!accepted(), "a file without a complete header is rejected");
}
