// property: P02
// sources: gnssobs.cpp
#include "vf.h"
#include "gnssobs.hpp"
#include <stdexcept>
using namespace ngpt;

// The letter of every observation type is the one RINEX assigns to it.
CONTRACT(obstype_letter) {
  int8_t i = vf_i8("type");
  vf_assume(i >= 0 && i < 7);
  OBSERVABLE_TYPE t = static_cast<OBSERVABLE_TYPE>(i);
  char c = observabletype_to_char(t);
  vf_assert(c == 'C' || c == 'L' || c == 'D' || c == 'S' || c == 'I' || c == 'X' || c == '?', "letter is one of CLDSIX?");
  if (t == OBSERVABLE_TYPE::pseudorange) vf_assert(c == 'C', "pseudorange is C");
  if (t == OBSERVABLE_TYPE::carrier_phase) vf_assert(c == 'L', "carrier phase is L");
  if (t == OBSERVABLE_TYPE::doppler) vf_assert(c == 'D', "doppler is D");
  if (t == OBSERVABLE_TYPE::signal_strength) vf_assert(c == 'S', "signal strength is S");
  if (t == OBSERVABLE_TYPE::ionosphere_phase_delay) vf_assert(c == 'I', "ionosphere delay is I");
  if (t == OBSERVABLE_TYPE::receiver_channel_number) vf_assert(c == 'X', "channel number is X");
  if (t == OBSERVABLE_TYPE::any) vf_assert(c == '?', "any is ?");
}

// every one of the 256 characters: accepted iff it is one of CLDSIX, and then
// printing the type gives the character back
CONTRACT(obstype_parse) {
  char c = vf_i8("letter");
  bool thrown = false;
  OBSERVABLE_TYPE t = OBSERVABLE_TYPE::any;
  try {
    t = char_to_observabletype(c);
  } catch (std::runtime_error &) {
    thrown = true;
  }
  bool known = c == 'C' || c == 'L' || c == 'D' || c == 'S' || c == 'I' || c == 'X';
  vf_assert(thrown == !known, "a character is rejected iff it names no type");
  if (!thrown) vf_assert(observabletype_to_char(t) == c, "letter -> type -> letter is the identity");
}

// type -> letter -> type is the identity on every concrete type
CONTRACT(obstype_inverse) {
  int8_t i = vf_i8("type");
  vf_assume(i >= 0 && i < 7);
  OBSERVABLE_TYPE t = static_cast<OBSERVABLE_TYPE>(i);
  vf_assume(t != OBSERVABLE_TYPE::any);
  bool thrown = false;
  OBSERVABLE_TYPE u = OBSERVABLE_TYPE::any;
  try {
    u = char_to_observabletype(observabletype_to_char(t));
  } catch (...) {
    thrown = true;
  }
  vf_assert(!thrown, "own letter is accepted");
  vf_assert(u == t, "type -> letter -> type is the identity");
}
