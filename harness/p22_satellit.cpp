// property: P22
// bound: two entries of any content behind the listed numbers of other lines
// sources: bern_utils.cpp
// model: stubs/ifstream.cpp
// flags: -I@/stubs
// option: lia=1
#include "vf.h"
#include "vfile.h"
#include "ggdatetime/datetime_read.hpp"
#include "bern_utils.hpp"
using namespace ngpt;
static const char *const first_ = "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2";
static const char *const part2_ = "PART 2: ON-BOARD SENSORS";
static const char *const title1_ = "                                              START TIME           END TIME                 SENSOR OFFSETS (M)       SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)";
static const char *const title2_ = "PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM DD HH MM SS         DX        DY        DZ         X       Y       Z          X       Y       Z      ANTEX SENSOR NAME___  IFRQ  SIGNAL LIST___________------>";
static void line(const char *t) { vf_line(t, std::strlen(t)); }
static void header() {
  vf_begin();
  line(first_);
  line("");
  line("PART 1: PHYSICAL SATELLITE PARAMETERS");
  line("");
  line(part2_);
  line("------------------------");
  line(title1_);
  line(title2_);
  line("");
}
static char rec_[4][221];
struct Rec {
  bool mw;
  int prn, svn, channel;
  int64_t d0, s0, d1, s1;
  bool open;
};
static long digits(const char *p, int n) {
  char b[8];
  std::memcpy(b, p, n);
  b[n] = 0;
  return std::strtol(b, nullptr, 10);
}
static char *plain(int k) {
  char *t = rec_[k];
  std::memset(t, ' ', 220);
  t[220] = 0;
  std::memcpy(t, "101", 3);
  std::memcpy(t + 5, "MW", 2);
  std::memcpy(t + 11, "GLONASS", 7);
  std::memcpy(t + 28, "701", 3);
  std::memcpy(t + 38, "1", 1);
  std::memcpy(t + 41, "2010 01 02 00 00 00", 19);
  std::memcpy(t + 62, "2010 01 04 00 00 00", 19);
  std::memcpy(t + 195, "1", 1);
  std::memcpy(t + 199, "L1C L2P", 7);
  return t;
}
static Rec of(int k) {
  const char *t = rec_[k];
  Rec r;
  r.mw = t[5] == 'M' && t[6] == 'W';
  r.prn = digits(t, 3);
  r.svn = digits(t + 28, 3);
  r.channel = digits(t + 194, 2);
  r.d0 = vf_date_mjd(digits(t + 41, 4), digits(t + 46, 2), digits(t + 49, 2));
  r.s0 = digits(t + 52, 2) * 3600 + digits(t + 55, 2) * 60 + digits(t + 58, 2);
  r.open = t[62] == ' ';
  r.d1 = r.open ? 0 : vf_date_mjd(digits(t + 62, 4), digits(t + 67, 2), digits(t + 70, 2));
  r.s1 = r.open ? 0 : digits(t + 73, 2) * 3600 + digits(t + 76, 2) * 60 + digits(t + 79, 2);
  return r;
}
// a record with any satellite, interval and channel
static void record(int k) {
  char *t = plain(k);
  const char d[] = "0123456789";
  vf_chars(t, 3, d, "prn");
  vf_chars(t + 28, 3, d, "svn");
  vf_chars(t + 194, 1, " -", "sign");
  vf_chars(t + 195, 1, d, "channel");
  static const char *const types[] = {"MW", "SL", "MR", "XW"};
  std::memcpy(t + 5, types[vf_concretize(vf_in("type", 0, 3))], 2);
  bool open = vf_concretize(vf_in("no end", 0, 1));
  for (int o = 41; o <= 62; o += 21) {
    if (o == 62 && open) {
      std::memset(t + o, ' ', 19);
      break;
    }
    vf_chars(t + o + 2, 2, d, "year");
    vf_chars(t + o + 6, 1, d, "month");
    vf_chars(t + o + 9, 1, d, "day");
    vf_chars(t + o + 12, 1, d, "hour");
    vf_chars(t + o + 18, 1, d, "second");
    vf_assume(vf_date_exists(digits(t + o, 4), digits(t + o + 5, 2), digits(t + o + 8, 2)));
  }
}
static bool holds(const Rec &r, int svn, int64_t d, int64_t s) {
  return r.mw & (r.svn == svn) & ((r.d0 < d) | ((r.d0 == d) & (r.s0 <= s))) & (r.open | (d < r.d1) | ((d == r.d1) & (s < r.s1)));
}
static int svn_;
static int64_t day_, sec_;
// (random search only: often at a limit of the interval)
static datetime<seconds> epoch(const Rec *r = nullptr) {
  day_ = vf_in("day", vf_symbolic() ? 0 : 55197, vf_symbolic() ? 1000000 : 55206);
  sec_ = vf_in("second", 0, 86399);
  if (!vf_symbolic() && r && vf_bool("limit")) {
    bool e = vf_bool("upper") && !r->open;
    day_ = e ? r->d1 : r->d0;
    sec_ = e ? r->s1 : r->s0;
    vf_assume(sec_ < 86400);
  }
  return datetime<seconds>(modified_julian_day(day_), seconds(sec_));
}

// the first record of the satellite whose interval contains the epoch counts;
// an earlier query does not matter
CONTRACT(channel_of_the_epoch) {
  header();
  record(0);
  record(1);
  if (!vf_symbolic() && vf_bool("same")) std::memcpy(rec_[1] + 28, rec_[0] + 28, 3);
  Rec a = of(0), b = of(1);
  int end = vf_concretize(vf_in("end", 0, 3));
  vf_line(rec_[0], 220);
  vf_line(rec_[1], vf_concretize(vf_in("signals", 0, 1)) ? 220 : 196);
  if (end == 1) line("");
  if (end == 2) line("PART 3: NOTES AND COMMENTS");
  if (end >= 1) vf_line(plain(2), 220); // not a record any more
  vf_f_nonl = end == 3;
  if (end == 3) vf_f_nl = vf_f_nl - 1;
  svn_ = vf_in("svn", 0, 999);
  if (!vf_symbolic() && vf_bool("present")) svn_ = a.svn;
  datetime<seconds> t = epoch(&a);
  BernSatellit table(vf_file());
  int f = 99, p = 99;
  if (vf_concretize(vf_in("earlier query", 0, 1))) table.get_frequency_channel(1000, t, f, p);
  int r = table.get_frequency_channel(svn_, t, f, p);
  if (holds(a, svn_, day_, sec_)) {
    vf_assert(r == 0 && f == a.channel && p == a.prn, "the channel and number of the first entry that contains the epoch");
  } else if (holds(b, svn_, day_, sec_)) {
    vf_assert(r == 0 && f == b.channel && p == b.prn, "the channel and number of the second entry if only that contains the epoch");
  } else {
    vf_assert(r == -1, "failure when no entry contains the epoch");
  }
}
// any number of other lines before the record
// @option unroll=1100
CONTRACT(late_record) {
  header();
  static char other[101];
  std::memset(other, 'x', 100);
  int n = vf_concretize(vf_in("other records", 0, 99)) * 10;
  for (int i = 0; i < n; i++) vf_line(other, 100);
  vf_line(plain(0), 220);
  BernSatellit table(vf_file());
  int f = 99, p = 99;
  vf_assume(vf_date_exists(2010, 1, 2) && vf_date_exists(2010, 1, 4) && vf_date_mjd(2010, 1, 2) < vf_date_mjd(2010, 1, 4));
  vf_assert(table.get_frequency_channel(701, datetime<seconds>(modified_julian_day(vf_date_mjd(2010, 1, 2)), seconds(0)), f, p) == 0 && f == 1 && p == 101, "the record is found behind any others");
}
// a record that is cut anywhere
CONTRACT(record_cut) {
  header();
  int n = vf_concretize(vf_in("length", 0, 193));
  vf_line(plain(0), n);
  vf_f_nonl = vf_concretize(vf_in("no final newline", 0, 1));
  BernSatellit table(vf_file());
  int f = 99, p = 99;
  int r = table.get_frequency_channel(701, epoch(), f, p);
  vf_assert(r != 0 && f == 99, "no channel is invented from an incomplete record");
}
// a record with unreadable fields
CONTRACT(record_damaged) {
  header();
  static const int from[] = {0, 28, 41, 62, 193}, len[] = {3, 3, 19, 19, 10};
  int w = vf_concretize(vf_in("field", 0, 4));
  char *t = plain(0);
  std::memset(t + from[w], vf_concretize(vf_in("text", 0, 1)) || w == 3 ? 'x' : ' ', len[w]);
  vf_line(t, 220);
  BernSatellit table(vf_file());
  errno = vf_concretize(vf_in("errno", 0, 1)) * ERANGE;
  vf_assume(vf_date_exists(2010, 1, 2) && vf_date_exists(2010, 1, 4) && vf_date_mjd(2010, 1, 2) < vf_date_mjd(2010, 1, 4));
  int f = 99, p = 99;
  int r = table.get_frequency_channel(701, datetime<seconds>(modified_julian_day(vf_date_mjd(2010, 1, 2)), seconds(0)), f, p);
  vf_assert(r > 0, "an unreadable record is reported as an error");
}
// an error of an earlier library call does not matter
CONTRACT(errno_left_over) {
  header();
  vf_line(plain(0), 220);
  BernSatellit table(vf_file());
  int f = 99, p = 99;
  vf_assume(vf_date_exists(2010, 1, 2) && vf_date_exists(2010, 1, 4) && vf_date_mjd(2010, 1, 2) < vf_date_mjd(2010, 1, 4));
  errno = ERANGE;
  vf_assert(table.get_frequency_channel(701, datetime<seconds>(modified_julian_day(vf_date_mjd(2010, 1, 2)), seconds(0)), f, p) == 0 && f == 1, "a well-formed record is read");
}
// a date that does not exist
CONTRACT(no_such_date) {
  header();
  char *t = plain(0);
  std::memcpy(t + (vf_concretize(vf_in("end", 0, 1)) ? 62 : 41) + 5, "13", 2);
  vf_line(t, 220);
  vf_assume(!vf_date_exists(2010, 13, 2) && !vf_date_exists(2010, 13, 4));
  BernSatellit table(vf_file());
  int f = 99, p = 99;
  vf_assert(table.get_frequency_channel(701, epoch(), f, p) > 0, "an unreadable record is reported as an error");
}
// a line longer than any record
CONTRACT(line_too_long) {
  header();
  static char t[400];
  std::memset(t, 'x', 400);
  vf_line(t, vf_concretize(vf_in("length", 0, 4)) * 36 + 256);
  vf_line(plain(0), 220);
  BernSatellit table(vf_file());
  int f = 99, p = 99;
  int r = table.get_frequency_channel(701, epoch(), f, p);
  vf_assert(r > 0, "a line that cannot be read is reported as an error");
}

// ---------------------------------------------------------------- opening
static bool opens() {
  try {
    BernSatellit table(vf_file());
    return true;
  } catch (std::runtime_error &) {
    return false;
  }
}
// one of the lines that identify the file is altered
CONTRACT(header_lines) {
  header();
  static char t[300];
  static const int which[] = {0, 4, 6, 7};
  int w = which[vf_concretize(vf_in("line", 0, 3))];
  int n = vf_f_len[w];
  std::memcpy(t, vf_f_text[w], n);
  t[n] = 0;
  int i = vf_in("column", 0, 227);
  vf_assume(i < n);
  vf_f_text[w] = t;
  vf_assert(opens(), "a satellite table is accepted");
  t[i] = t[i] == '#' ? '+' : '#';
  vf_assert(!opens(), "a file without the lines of a satellite table is rejected");
}
CONTRACT(header_truncated) {
  header();
  vf_f_nl = vf_concretize(vf_in("lines", 0, 7));
  vf_f_missing = vf_concretize(vf_in("missing", 0, 1));
  vf_f_nonl = vf_concretize(vf_in("no final newline", 0, 1));
  vf_assert(!opens(), "a file without the lines of a satellite table is rejected");
}
