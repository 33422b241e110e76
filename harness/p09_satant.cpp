// property: P09
// sources: antenna.cpp
#include "vf.h"
#include "antenna.hpp"
#include <cstring>
using namespace ngpt;

static void check_text(const SatelliteAntenna &a, const char *s) {
  const char *n = a.__underlying_char__();
  bool ok = true, run = true;
  for (std::size_t i = 0; i < 20; i++) {
    ok = ok & (!run | (n[i] == s[i]));
    if (s[i] == 0) { run = false; break; }
  }
  vf_assert(ok, "antenna text is the given text, cut after 20 characters");
  if (run) vf_assert(n[20] == 0, "text of 20 characters is terminated");
}

// Construction and setting from any text.
CONTRACT(satant_text) {
  char *s = vf_cstr("text", VF_UNBOUNDED);
  SatelliteAntenna a(s);
  check_text(a, s);
  std::string t = a.to_string();
  std::size_t len = std::strlen(s);
  vf_assert(t.size() == (len < 20 ? len : 20), "printed text has the right length");
  vf_assert(std::strcmp(t.c_str(), a.__underlying_char__()) == 0, "printed text is the antenna text");
}
CONTRACT(satant_set) {
  char *s = vf_cstr("text1", VF_UNBOUNDED), *t = vf_cstr("text2", VF_UNBOUNDED);
  SatelliteAntenna a(s);
  a.set_from_cstr(t);
  check_text(a, t);
  SatelliteAntenna b;
  vf_assert(b.__underlying_char__()[0] == 0, "default antenna is empty");
  b.set_from_cstr(t);
  check_text(b, t);
}

// Comparison with a text.
CONTRACT(satant_is_same) {
  char *s = vf_cstr("text1", VF_UNBOUNDED), *t = vf_cstr("text2", VF_UNBOUNDED);
  SatelliteAntenna a(s);
  bool eq = true;
  for (std::size_t i = 0; i < 20; i++) {
    if (s[i] != t[i]) { eq = false; break; }
    if (s[i] == 0) break;
  }
  vf_assert(a.is_same(t) == eq, "same iff the texts agree (20 significant characters)");
  vf_assert(a.is_same(s), "an antenna is the same as the text it was made from");
}
