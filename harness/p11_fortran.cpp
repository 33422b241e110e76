// property: P11
// sources: nvarstr.cpp
#include "vf.h"
#include "nvarstr.hpp"
#include <cerrno>
#include <cstring>
using namespace ngpt;

// Fortran exponents: every D and d becomes E, everything else is unchanged.
CONTRACT(for2cpp) {
  char *s = vf_cstr("text", 0x7ffffff0);
  std::size_t n = std::strlen(s);
  int64_t j = vf_i64("j");
  vf_assume(j >= 0 && (std::size_t)j <= n);
  char before = s[j];
  __for2cpp__(s);
  char want = (before == 'D' || before == 'd') ? 'E' : before;
  vf_assert(s[j] == want, "D and d become E, other characters are unchanged");
  vf_assert(s[n] == 0, "text keeps its length");
}

// one well-formed Fortran number of W columns: [ -]d.ddddE[+-]dd right aligned
static void fixed_field(char *f, int frac) {
  if (!vf_symbolic()) { // random search: make arbitrary bytes well-formed (legal bytes stay)
    auto fix = [](char &c, const char *legal) { if (!c || !std::strchr(legal, c)) c = legal[(unsigned char)c % std::strlen(legal)]; };
    fix(f[0], " -"); fix(f[1], "0123456789"); f[2] = '.';
    for (int i = 0; i < frac; i++) fix(f[3 + i], "0123456789");
    f[3 + frac] = 'E'; fix(f[4 + frac], "+-"); fix(f[5 + frac], "0123456789"); fix(f[6 + frac], "0123456789");
  }
  vf_assume(f[0] == ' ' || f[0] == '-');
  vf_assume(f[1] >= '0' && f[1] <= '9' && f[2] == '.');
  for (int i = 0; i < frac; i++) vf_assume(f[3 + i] >= '0' && f[3 + i] <= '9');
  vf_assume(f[3 + frac] == 'E' && (f[4 + frac] == '+' || f[4 + frac] == '-'));
  vf_assume(f[5 + frac] >= '0' && f[5 + frac] <= '9' && f[6 + frac] >= '0' && f[6 + frac] <= '9');
}
static double value_of(const char *f, int w) {
  char b[32];
  std::memcpy(b, f, w);
  b[w] = 0;
  return std::strtod(b, nullptr);
}

// Four adjacent 19-column numbers: each is read from its own columns.
CONTRACT(char2double_4x19) {
  char line[4 * 19 + 1];
  vf_bytes(line, 76, "line");
  line[76] = 0;
  for (int k = 0; k < 4; k++) fixed_field(line + 19 * k, 12);
  double d[4], e[4];
  errno = 0;
  bool ok1 = __char2double__<4, 19>(line, d);
  bool ok2 = __char2double__<19>(line, e, 4);
  vf_assert(ok1 && ok2, "well-formed numbers are accepted");
  for (int k = 0; k < 4; k++) {
    vf_assert_eq(d[k], value_of(line + 19 * k, 19), "number k is read from its own columns (fixed count)");
    vf_assert_eq(e[k], value_of(line + 19 * k, 19), "number k is read from its own columns (run-time count)");
  }
}

// A line that holds no number is rejected.
CONTRACT(char2double_garbage) {
  char line[20];
  vf_bytes(line, 19, "line");
  line[19] = 0;
  vf_assume(line[0] == ' ');
  bool digit = false;
  for (int i = 0; i < 19; i++) {
    digit = digit | ((line[i] >= '0') & (line[i] <= '9'));
    digit = digit | (line[i] == 'i') | (line[i] == 'I') | (line[i] == 'n') | (line[i] == 'N'); // inf, nan
  }
  vf_assume(!digit);
  double d[1] = {7}, e[1] = {7};
  errno = 0;
  vf_assert((!__char2double__<1, 19>(line, d)), "a field without digits is rejected (fixed count)");
  vf_assert(!__char2double__<19>(line, e, 1), "a field without digits is rejected (run-time count)");
}
