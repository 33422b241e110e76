// property: P01
// sources: satsys.cpp
#include "vf.h"
#include "satsys.hpp"
using namespace ngpt;

// The letter of every satellite system is the one RINEX assigns to it.
CONTRACT(satsys_letter) {
  int8_t i = vf_i8("system");
  vf_assume(i >= 0 && i < 8);
  SATELLITE_SYSTEM s = static_cast<SATELLITE_SYSTEM>(i);
  char c = satsys_to_char(s);
  vf_assert(c == 'G' || c == 'R' || c == 'S' || c == 'E' || c == 'C' || c == 'J' || c == 'I' || c == 'M', "letter is one of GRSECJIM");
  if (s == SATELLITE_SYSTEM::gps) vf_assert(c == 'G', "GPS is G");
  if (s == SATELLITE_SYSTEM::glonass) vf_assert(c == 'R', "GLONASS is R");
  if (s == SATELLITE_SYSTEM::sbas) vf_assert(c == 'S', "SBAS is S");
  if (s == SATELLITE_SYSTEM::galileo) vf_assert(c == 'E', "Galileo is E");
  if (s == SATELLITE_SYSTEM::beidou) vf_assert(c == 'C', "BeiDou is C");
  if (s == SATELLITE_SYSTEM::qzss) vf_assert(c == 'J', "QZSS is J");
  if (s == SATELLITE_SYSTEM::irnss) vf_assert(c == 'I', "IRNSS is I");
  if (s == SATELLITE_SYSTEM::mixed) vf_assert(c == 'M', "mixed is M");
}

// letter -> system inverts system -> letter for every system
CONTRACT(satsys_inverse) {
  int8_t i = vf_i8("system");
  vf_assume(i >= 0 && i < 8);
  SATELLITE_SYSTEM s = static_cast<SATELLITE_SYSTEM>(i);
  bool thrown = false;
  SATELLITE_SYSTEM t = SATELLITE_SYSTEM::mixed;
  try {
    t = char_to_satsys(satsys_to_char(s));
  } catch (...) {
    thrown = true;
  }
  vf_assert(!thrown, "own letter is accepted");
  vf_assert(t == s, "system -> letter -> system is the identity");
}

// every one of the 256 characters: accepted iff it is a system letter
CONTRACT(satsys_parse) {
  char c = vf_i8("letter");
  bool thrown = false;
  SATELLITE_SYSTEM s = SATELLITE_SYSTEM::mixed;
  try {
    s = char_to_satsys(c);
  } catch (std::runtime_error &) {
    thrown = true;
  }
  bool known = c == 'G' || c == 'R' || c == 'S' || c == 'E' || c == 'C' || c == 'J' || c == 'I' || c == 'M';
  vf_assert(thrown == !known, "a character is rejected iff it names no system");
  if (!thrown) vf_assert(satsys_to_char(s) == c, "letter -> system -> letter is the identity");
}

// the identifier constants agree with the conversion functions
CONTRACT(satsys_identifiers) {
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::gps>::identifier == satsys_to_char(SATELLITE_SYSTEM::gps), "GPS identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::glonass>::identifier == satsys_to_char(SATELLITE_SYSTEM::glonass), "GLONASS identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::sbas>::identifier == satsys_to_char(SATELLITE_SYSTEM::sbas), "SBAS identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::galileo>::identifier == satsys_to_char(SATELLITE_SYSTEM::galileo), "Galileo identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::beidou>::identifier == satsys_to_char(SATELLITE_SYSTEM::beidou), "BeiDou identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::qzss>::identifier == satsys_to_char(SATELLITE_SYSTEM::qzss), "QZSS identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::irnss>::identifier == satsys_to_char(SATELLITE_SYSTEM::irnss), "IRNSS identifier");
  vf_assert(satellite_system_traits<SATELLITE_SYSTEM::mixed>::identifier == satsys_to_char(SATELLITE_SYSTEM::mixed), "mixed identifier");
}
