// property: P12
// sources: satellite.cpp satsys.cpp antenna.cpp
#include "vf.h"
#include "satellite.hpp"
#include <cstring>
using namespace ngpt;

static SATELLITE_SYSTEM any_system() {
  int8_t i = vf_i8("system");
  vf_assume(i >= 0 && i < 8);
  return static_cast<SATELLITE_SYSTEM>(i);
}

// Compact text: system letter and PRN with at least two digits.
CONTRACT(satellite_compact) {
  SATELLITE_SYSTEM s = any_system();
  int32_t prn = vf_i32("prn");
  vf_assume(prn >= 0 && prn <= 999);
  Satellite a(s, prn);
  std::string t = a.to_string();
  vf_assert(t.size() == (prn > 99 ? 4 : 3), "letter and two digits (three from 100 on)");
  vf_assert(t[0] == satsys_to_char(s), "first character is the system letter");
  std::size_t k = 1;
  if (prn > 99) { vf_assert(t[1] == '0' + prn / 100, "hundreds"); k = 2; }
  vf_assert(t[k] == '0' + prn / 10 % 10, "tens");
  vf_assert(t[k + 1] == '0' + prn % 10, "units");
}

// Full text: compact text, three-digit SVN and the COSPAR id.
CONTRACT(satellite_full) {
  SATELLITE_SYSTEM s = any_system();
  int32_t prn = vf_i32("prn"), svn = vf_i32("svn");
  vf_assume(prn >= 0 && prn <= 99 && svn >= 0 && svn <= 999);
  char id[10];
  vf_bytes(id, 9, "cospar");
  id[9] = 0;
  for (int i = 0; i < 9; i++) vf_assume(id[i] != 0);
  Satellite a(s, prn);
  a.svn() = svn;
  std::memcpy(a.cospar(), id, 10);
  std::string t = a.to_string(false), c = a.to_string(true);
  vf_assert(t.size() == 3 + 4 + 1 + 9, "SPRN-SVN/COSPAR has 17 characters");
  vf_assert(t[0] == c[0] && t[1] == c[1] && t[2] == c[2], "starts with the compact text");
  vf_assert(t[3] == '-' && t[7] == '/', "separators");
  vf_assert(t[4] == '0' + svn / 100 && t[5] == '0' + svn / 10 % 10 && t[6] == '0' + svn % 10, "three-digit SVN");
  bool same = true;
  for (int i = 0; i < 9; i++) same = same & (t[8 + i] == id[i]);
  vf_assert(same, "COSPAR id is printed completely");
}

// Without a COSPAR id nothing but the separator is printed.
CONTRACT(satellite_nocospar) {
  SATELLITE_SYSTEM s = any_system();
  int32_t prn = vf_i32("prn"), svn = vf_i32("svn");
  vf_assume(prn >= 0 && prn <= 99 && svn >= 0 && svn <= 999);
  Satellite a(s);
  a.prn() = prn;
  a.svn() = svn;
  std::string t = a.to_string(false);
  vf_assert(t.size() == 8 && t[7] == '/', "SPRN-SVN/ only");
}

// Accessors: what is set is what is read, other members keep their value.
CONTRACT(satellite_accessors) {
  SATELLITE_SYSTEM s = any_system(), s2 = any_system();
  int32_t prn = vf_i32("prn"), p2 = vf_i32("prn2"), v2 = vf_i32("svn2");
  char *at = vf_cstr("antenna", VF_UNBOUNDED);
  Satellite a(s, prn), d;
  const Satellite &k = a;
  vf_assert(k.system() == s && k.prn() == prn && k.svn() == -1 && k.antenna().__underlying_char__()[0] == 0, "constructor");
  vf_assert(const_cast<const Satellite &>(d).system() == SATELLITE_SYSTEM::mixed && const_cast<const Satellite &>(d).prn() == -1, "default satellite");
  a.antenna().set_from_cstr(at);
  a.system() = s2;
  a.prn() = p2;
  a.svn() = v2;
  vf_assert(k.system() == s2 && k.prn() == p2 && k.svn() == v2, "setters");
  vf_assert(k.antenna().is_same(at), "antenna");
}
