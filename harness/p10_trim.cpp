// property: P10
// sources: nvarstr.cpp
#include "vf.h"
#include "nvarstr.hpp"
#include <cstring>
using namespace ngpt;
using End = str_algorithm_details::StrSearchPolicyEnd;
using Start = str_algorithm_details::StrSearchPolicyStart;
#define MAXLEN ((std::size_t)0x7ffffff0)

static std::size_t effective(const char *s, std::size_t stop) {
  std::size_t n = std::strlen(s);
  return (stop != (std::size_t)-1 && stop < n) ? stop : n;
}
static bool is_prefix(const std::string &r, const char *s, std::size_t n) {
  if (r.size() != n) return false;
  int64_t i = vf_i64("any position");
  if (i < 0 || (std::size_t)i >= n) return true;
  return r[i] == s[i];
}

// Trailing blanks are cut, nothing else.
CONTRACT(rtrim_from_end) {
  char *s = vf_cstr("text", MAXLEN);
  std::size_t stop = (std::size_t)vf_i64("stop");
  std::size_t n = effective(s, stop), pos = 12345;
  std::string r = rtrim<End>(s, pos, stop);
  vf_assert(pos <= n, "end position within the text");
  vf_assert(is_prefix(r, s, pos), "result is the text up to the end position");
  if (pos > 0) vf_assert(s[pos - 1] != ' ', "result does not end in a blank");
  int64_t j = vf_i64("j");
  if (j >= 0 && (std::size_t)j < n && (std::size_t)j >= pos) vf_assert(s[j] == ' ', "only blanks are cut");
}

// Everything from the first blank on is cut.
CONTRACT(rtrim_from_start) {
  char *s = vf_cstr("text", MAXLEN);
  std::size_t stop = (std::size_t)vf_i64("stop");
  std::size_t n = effective(s, stop), pos = 12345;
  std::string r = rtrim<Start>(s, pos, stop);
  vf_assert(pos <= n, "end position within the text");
  vf_assert(is_prefix(r, s, pos), "result is the text up to the end position");
  if (pos < n) vf_assert(s[pos] == ' ', "cut at a blank");
  int64_t j = vf_i64("j");
  if (j >= 0 && (std::size_t)j < pos) vf_assert(s[j] != ' ', "no blank before the cut");
}

// Leading blanks are cut, nothing else.
CONTRACT(ltrim_all) {
  char *s = vf_cstr("text", MAXLEN);
  std::size_t stop = (std::size_t)vf_i64("stop");
  std::size_t n = effective(s, stop), pos = 12345;
  std::string r = ltrim(s, pos, stop);
  vf_assert(pos <= n, "start position within the text");
  vf_assert(is_prefix(r, s + pos, n - pos), "result is the rest of the text");
  if (pos < n) vf_assert(s[pos] != ' ', "result does not start with a blank");
  int64_t j = vf_i64("j");
  if (j >= 0 && (std::size_t)j < pos) vf_assert(s[j] == ' ', "only blanks are cut");
}

// A text is empty iff it consists of blanks.
CONTRACT(is_empty) {
  char *s = vf_cstr("text", MAXLEN);
  std::size_t stop = (std::size_t)vf_i64("stop");
  std::size_t n = effective(s, stop);
  bool e = string_is_empty(s, stop);
  int64_t j = vf_i64("j");
  if (e && j >= 0 && (std::size_t)j < n) vf_assert(s[j] == ' ', "an empty text has only blanks");
  std::size_t pos;
  ltrim(s, pos, stop);
  vf_assert(e == (pos == n), "empty iff nothing remains after trimming");
}

// The default arguments: the whole text, cut at the first blank.
CONTRACT(rtrim_default) {
  char *s = vf_cstr("text", MAXLEN);
  std::size_t n = std::strlen(s), pos = 12345;
  std::string r = rtrim<>(s, pos);
  vf_assert(pos <= n, "end position within the text");
  vf_assert(is_prefix(r, s, pos), "result is the text up to the end position");
  if (pos < n) vf_assert(s[pos] == ' ', "cut at a blank");
  int64_t j = vf_i64("j");
  if (j >= 0 && (std::size_t)j < pos) vf_assert(s[j] != ' ', "no blank before the cut");
}
CONTRACT(ltrim_default) {
  char *s = vf_cstr("text", MAXLEN);
  std::size_t n = std::strlen(s), pos = 12345;
  std::string r = ltrim(s, pos);
  vf_assert(pos <= n, "start position within the text");
  vf_assert(is_prefix(r, s + pos, n - pos), "result is the rest of the text");
  if (pos < n) vf_assert(s[pos] != ' ', "result does not start with a blank");
  int64_t j = vf_i64("j");
  if (j >= 0 && (std::size_t)j < pos) vf_assert(s[j] == ' ', "only blanks are cut");
}
CONTRACT(is_empty_default) {
  char *s = vf_cstr("text", MAXLEN);
  std::size_t n = std::strlen(s);
  bool e = string_is_empty(s);
  int64_t j = vf_i64("j");
  if (e && j >= 0 && (std::size_t)j < n) vf_assert(s[j] == ' ', "an empty text has only blanks");
  bool some = false;
  for (std::size_t i = 0; i < n; i++)
    if (s[i] != ' ') { some = true; break; }
  vf_assert(e == !some, "empty iff there is no other character than blanks");
}
