// property: P03
// sources: gnssobs.cpp
#include "vf.h"
#include "gnssobs.hpp"
#include <stdexcept>
using namespace ngpt;

static bool type_letter(char c) { return c == 'C' || c == 'L' || c == 'D' || c == 'S' || c == 'I' || c == 'X'; }
static bool digit(char c) { return c >= '0' && c <= '9'; }

// Parsing, for every text of any length.
CONTRACT(obscode_parse) {
  char *s = vf_cstr("text", VF_UNBOUNDED);
  bool thrown = false;
  try {
    ObservationCode c(s);
    vf_assert(s[0] != 0 && s[1] != 0, "accepted text has at least two characters");
    vf_assert(type_letter(s[0]), "accepted text starts with an observation type");
    vf_assert(digit(s[1]), "accepted text has a band digit");
    vf_assert(observabletype_to_char(c.get<0>()) == s[0], "type is the first character");
    vf_assert(c.band() == s[1] - '0', "band is the second character");
    vf_assert(c.get<1>() == s[1] - '0', "band by structured access");
    char want = (s[2] == 0 || s[2] == ' ') ? '?' : s[2];
    vf_assert(c.get<2>().as_char() == want, "attribute is the third character, '?' when absent or blank");
  } catch (std::runtime_error &) {
    thrown = true;
  }
  if (thrown) vf_assert(s[0] == 0 || s[1] == 0 || !type_letter(s[0]) || !digit(s[1]), "well-formed text is never rejected");
}

// Printing gives exactly the three characters type, band, attribute.
CONTRACT(obscode_print) {
  int8_t t = vf_i8("type");
  vf_assume(t >= 0 && t < 7);
  int32_t b = vf_i32("band");
  vf_assume(b >= 0 && b <= 9);
  char a = vf_i8("attribute");
  ObservationCode c(static_cast<OBSERVABLE_TYPE>(t), b, ObservationAttribute(a));
  std::string s = c.to_string();
  vf_assert(s.size() == 3, "three characters");
  vf_assert(s[0] == observabletype_to_char(static_cast<OBSERVABLE_TYPE>(t)), "first character is the type");
  vf_assert(s[1] == '0' + b, "second character is the band");
  vf_assert(s[2] == a, "third character is the attribute");
}

// Printing then parsing yields an equal code.
CONTRACT(obscode_print_parse) {
  int8_t t = vf_i8("type");
  vf_assume(t >= 0 && t < 6);
  int32_t b = vf_i32("band");
  vf_assume(b >= 0 && b <= 9);
  char a = vf_i8("attribute");
  vf_assume(a != 0 && a != ' ');
  ObservationCode c(static_cast<OBSERVABLE_TYPE>(t), b, ObservationAttribute(a));
  bool thrown = false;
  try {
    ObservationCode d(c.to_string().c_str());
    vf_assert(d == c, "print then parse is the identity");
    vf_assert(!(d != c), "and the codes are not reported different");
  } catch (...) {
    thrown = true;
  }
  vf_assert(!thrown, "printed code is accepted");
}

// Parsing then printing a complete text of three characters gives the text back.
CONTRACT(obscode_parse_print) {
  char s[4];
  vf_bytes(s, 3, "text");
  s[3] = 0;
  vf_assume(type_letter(s[0]) && digit(s[1]) && s[2] != 0 && s[2] != ' ');
  std::string r = ObservationCode(s).to_string();
  vf_assert(r.size() == 3 && r[0] == s[0] && r[1] == s[1] && r[2] == s[2], "parse then print is the identity");
}

// Equality is exactly equality of the three components.
CONTRACT(obscode_equality) {
  int8_t t1 = vf_i8("type1"), t2 = vf_i8("type2");
  vf_assume(t1 >= 0 && t1 < 7 && t2 >= 0 && t2 < 7);
  int32_t b1 = vf_i32("band1"), b2 = vf_i32("band2");
  char a1 = vf_i8("attr1"), a2 = vf_i8("attr2");
  ObservationAttribute x1(a1), x2(a2);
  vf_assert((x1 == x2) == (a1 == a2), "attributes are equal iff their characters are");
  vf_assert((x1 != x2) == (a1 != a2), "attributes differ iff their characters do");
  ObservationCode c(static_cast<OBSERVABLE_TYPE>(t1), b1, x1), d(static_cast<OBSERVABLE_TYPE>(t2), b2, x2);
  bool same = t1 == t2 && b1 == b2 && a1 == a2;
  vf_assert((c == d) == same, "codes are equal iff type, band and attribute are");
  vf_assert((c != d) == !same, "codes differ iff a component differs");
}

// Component access: construction, reading and writing through the accessors.
CONTRACT(obscode_components) {
  int8_t t = vf_i8("type");
  vf_assume(t >= 0 && t < 7);
  int32_t b = vf_i32("band"), b2 = vf_i32("band2");
  char a = vf_i8("attribute");
  ObservationCode c(static_cast<OBSERVABLE_TYPE>(t), b, ObservationAttribute(a));
  const ObservationCode &k = c;
  vf_assert(k.get<0>() == static_cast<OBSERVABLE_TYPE>(t) && k.get<1>() == b && k.get<2>().as_char() == a && k.band() == b, "components are the constructor arguments");
  c.band() = b2;
  vf_assert(k.band() == b2 && k.get<1>() == b2 && k.get<0>() == static_cast<OBSERVABLE_TYPE>(t) && k.get<2>().as_char() == a, "setting the band changes only the band");
  ObservationCode e;
  const ObservationCode &ke = e;
  vf_assert(ke.get<0>() == OBSERVABLE_TYPE::any && ke.band() == 0 && ke.get<2>().as_char() == '?', "default code matches anything");
}
