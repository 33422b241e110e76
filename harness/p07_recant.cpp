// property: P07
// sources: antenna.cpp
#include "vf.h"
#include "antenna.hpp"
#include "anyant.h"
#include <cstring>
using namespace ngpt;

// specification: character i of the 20-character model+radome name of text s
static char spec_char(const char *s, std::size_t len, std::size_t i) { return i < len ? s[i] : ' '; }
static bool radome_blank(const char *s, std::size_t len) {
  bool b = true;
  for (std::size_t i = 16; i < 20; i++) b = b & (spec_char(s, len, i) == ' ');
  return b;
}
static void check_name(const char *name, const char *s) {
  std::size_t len = std::strlen(s);
  bool blank = radome_blank(s, len);
  bool model = true, radome = true;
  for (std::size_t i = 0; i < 16; i++) model = model & (name[i] == spec_char(s, len, i));
  for (std::size_t i = 16; i < 20; i++) radome = radome & (name[i] == (blank ? "NONE"[i - 16] : spec_char(s, len, i)));
  vf_assert(model, "model columns are the text padded with blanks");
  vf_assert(radome, "radome columns are the text, or NONE when blank or absent");
  vf_assert(name[20] == 0, "name is terminated after 20 characters");
}

// Construction from a C string of any length and content.
CONTRACT(recant_cstr) {
  char *s = vf_cstr("text", VF_UNBOUNDED);
  ReceiverAntenna a(s);
  check_name(a.__underlying_char__(), s);
  vf_assert(!a.has_serial(), "no serial after construction");
}

// Construction from a std::string of any length and content.
CONTRACT(recant_string) {
  char *s = vf_cstr("text", VF_UNBOUNDED);
  std::string t(s);
  ReceiverAntenna a(t);
  check_name(a.__underlying_char__(), s);
  vf_assert(!a.has_serial(), "no serial after construction from std::string");
}

// The default antenna is 20 blanks without serial.
CONTRACT(recant_default) {
  ReceiverAntenna a;
  const char *n = a.__underlying_char__();
  for (int i = 0; i < 20; i++) vf_assert(n[i] == ' ', "default antenna is blank");
  vf_assert(n[20] == 0, "default antenna is terminated");
  vf_assert(!a.has_serial(), "default antenna has no serial");
}

// Two antennas are of the same model iff their 20-character names agree,
// whether or not they carry serials.
CONTRACT(recant_model) {
  ReceiverAntenna a, b;
  any_antenna(a, vf_bool("a has serial"), "a");
  any_antenna(b, vf_bool("b has serial"), "b");
  bool eq = same_text(a, b, 0, 20);
  vf_assert(a.compare_model(b) == eq, "same model iff the names agree");
  vf_assert(b.compare_model(a) == eq, "model comparison is symmetric");
  vf_assert(a.compare_model(a), "an antenna is of its own model");
}
