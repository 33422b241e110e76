// property: P08
// sources: antenna.cpp
#include "vf.h"
#include "antenna.hpp"
#include "anyant.h"
#include <cstring>
using namespace ngpt;

static char pad(const char *s, std::size_t len, std::size_t i) { return i < len ? s[i] : ' '; }

// Storing a serial: exactly the first 20 characters padded with blanks replace
// whatever serial there was; the name is untouched.
CONTRACT(serial_store) {
  char *s = vf_cstr("serial", VF_UNBOUNDED);
  ReceiverAntenna a;
  any_antenna(a, vf_bool("had a serial"), "antenna");
  ReceiverAntenna b(a);
  a.set_serial_nr(s);
  std::size_t len = std::strlen(s);
  bool ok = true;
  for (std::size_t i = 0; i < 20; i++) ok = ok & (a.__underlying_char__()[20 + i] == pad(s, len, i));
  vf_assert(ok, "serial columns are the serial padded with blanks");
  vf_assert(a.__underlying_char__()[40] == 0, "antenna text is terminated after 40 characters");
  vf_assert(same_text(a, b, 0, 20), "model and radome are unchanged");
}

// Whether an antenna has a serial.
CONTRACT(serial_has) {
  ReceiverAntenna a, b;
  any_antenna(a, true, "a");
  any_antenna(b, false, "b");
  vf_assert(a.has_serial() == some_serial(a), "has a serial iff one of its 20 characters is not blank");
  vf_assert(!b.has_serial(), "no serial was set");
}

// Comparing with a text: exact match of the (at most 20 character) serials.
CONTRACT(serial_compare) {
  char *t = vf_cstr("text", VF_UNBOUNDED);
  ReceiverAntenna a;
  any_antenna(a, true, "antenna");
  std::size_t lt = std::strlen(t);
  bool eq = true;
  for (std::size_t i = 0; i < 20; i++) eq = eq & (a.__underlying_char__()[20 + i] == pad(t, lt, i));
  vf_assert(a.compare_serial(t) == eq, "serial matches the text iff they are equal");
}
CONTRACT(serial_compare_none) {
  char *t = vf_cstr("text", VF_UNBOUNDED);
  ReceiverAntenna a;
  any_antenna(a, false, "antenna");
  bool some = false;
  std::size_t lt = std::strlen(t);
  for (std::size_t i = 0; i < 20; i++) some = some | (pad(t, lt, i) != ' ');
  if (some) vf_assert(!a.compare_serial(t), "an antenna without serial matches no serial");
  vf_cover("reached");
}

// Identity: same antenna iff both have a serial and model, radome and serial agree.
CONTRACT(serial_identity) {
  ReceiverAntenna a, b;
  any_antenna(a, true, "a");
  any_antenna(b, true, "b");
  bool want = some_serial(a) & some_serial(b) & same_text(a, b, 0, 40);
  vf_assert(a.is_same(b) == want, "same antenna iff model, radome and non-blank serial agree");
  vf_assert(b.is_same(a) == want, "identity is symmetric");
}

// An antenna with a serial is never the same as one without.
CONTRACT(serial_identity_missing) {
  ReceiverAntenna a, b, c;
  any_antenna(a, true, "a");
  any_antenna(b, false, "b");
  any_antenna(c, false, "c");
  vf_assert(!a.is_same(b), "with serial vs without");
  vf_assert(!b.is_same(a), "without serial vs with");
  vf_assert(!b.is_same(c), "antennas without serial are never the same antenna");
}

// Copies are the same antenna when they have a serial.
CONTRACT(serial_copy) {
  ReceiverAntenna a;
  any_antenna(a, true, "a");
  ReceiverAntenna b(a), c;
  c = a;
  vf_assert(same_text(a, b, 0, 40) && same_text(a, c, 0, 40), "a copy has the same text");
  vf_assert(a.is_same(b) == a.has_serial(), "a copy is the same antenna iff there is a serial");
}

// From construction on: constructor, serial and comparison together (short texts).
CONTRACT(serial_end_to_end) {
  char *s = vf_cstr("serial", 5), *t = vf_cstr("other", 5);
  ReceiverAntenna a("ASH701945C_M    SNOW"), b("ASH701945C_M    SNOW");
  a.set_serial_nr(s);
  b.set_serial_nr(t);
  vf_assert(a.compare_serial(s), "an antenna carries the serial it was given");
  vf_assert(a.compare_model(b), "serials do not change the model");
}
