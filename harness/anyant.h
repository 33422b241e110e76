// An arbitrary receiver antenna satisfying the class invariant: 20 non-NUL
// characters of model and radome, then either NUL (no serial) or 20 non-NUL
// characters of serial and NUL.  (P07 and serial_store/serial_replace prove
// that the constructors and set_serial_nr establish the invariant.)
#ifndef ANYANT_H
#define ANYANT_H
#include "antenna.hpp"
#include "vf.h"
#include <cstring>
static inline void any_antenna(ngpt::ReceiverAntenna &a, bool serial, const char *name) {
  char *p = const_cast<char *>(a.__underlying_char__());
  std::size_t n = serial ? 40 : 20;
  if (serial) vf_bytes(p, 40, name);
  else vf_bytes(p, 20, name);
  bool ok = true;
  for (std::size_t i = 0; i < n; i++) ok = ok & (p[i] != 0);
  vf_assume(ok);
  p[n] = 0;
}
static inline bool same_text(const ngpt::ReceiverAntenna &a, const ngpt::ReceiverAntenna &b, int from, int to) {
  bool eq = true;
  for (int i = from; i < to; i++) eq = eq & (a.__underlying_char__()[i] == b.__underlying_char__()[i]);
  return eq;
}
static inline bool some_serial(const ngpt::ReceiverAntenna &a) {
  bool s = false;
  for (int i = 20; i < 40; i++) s = s | (a.__underlying_char__()[i] != ' ');
  return s;
}
#endif
