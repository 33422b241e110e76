// Functional model of std::ifstream as the code uses it (libstdc++ semantics of
// C++17 [istream.unformatted]): a ghost file of lines, linked into the verified
// module in place of libstdc++'s out-of-line members.  The object keeps its real
// size and the real offset of its virtual base; only its content is the model's.
// Natively the real std::ifstream is used.
#include <cstring>
#include "vf.h"
extern "C" {
long vf_f_nl;                // number of lines
const char *vf_f_text[1200];  // text of each line
long vf_f_len[1200];          // its length (may be symbolic)
bool vf_f_nonl;              // the last line has no newline
bool vf_f_missing;           // the file does not exist
}
namespace {
const long vtab_[4] = {256, 0, 0, 0};
struct S {
  const void *vptr;
  long line, col, gcount;
  bool open;
  char pad[256 - 33];
  char iosb[32];
  int state;
};
constexpr int BAD = 1, EOFB = 2, FAIL = 4;
struct P { long off; long st; };
inline long at(const S *s) { return s->line << 20 | s->col; }
inline bool sentry(S *s) {
  if (s->state == 0) return true;
  s->state |= FAIL;
  return false;
}
// text between the position and the end of the line
inline long rest(const S *s) { return vf_concretize(vf_f_len[s->line]) - s->col; }
inline bool at_end(const S *s) {
  if (s->line >= vf_f_nl) return true;
  return s->line == vf_f_nl - 1 && vf_f_nonl && rest(s) == 0;
}
inline S *of_ios(void *i) { return reinterpret_cast<S *>(static_cast<char *>(i) - 256); }
inline void init(S *s) {
  s->vptr = &vtab_[3];
  s->line = s->col = s->gcount = 0;
  s->open = false;
  s->state = 0;
}
inline void open_(S *s) {
  if (vf_f_missing || s->open) s->state |= FAIL;
  else s->open = true, s->line = s->col = 0, s->state = 0;
}
} // namespace
#define D(ret, name, sym) ret name asm(sym); ret name
extern "C" {
D(void, vfi_c0(S *s), "_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1Ev") { init(s); }
D(void, vfi_c1(S *s, const char *, int), "_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode") { init(s); open_(s); }
D(void, vfi_c2(S *s, void *, int), "_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode") { init(s); open_(s); }
D(void, vfi_d(S *s), "_ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev") { s->open = false; }
D(void, vfi_open(S *s, const char *, int), "_ZNSt14basic_ifstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode") { open_(s); }
D(void, vfi_close(S *s), "_ZNSt14basic_ifstreamIcSt11char_traitsIcEE5closeEv") { if (!s->open) s->state |= FAIL; s->open = false; }
D(bool, vfi_is1(const S *s), "_ZNKSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv") { return s->open; }
D(bool, vfi_is2(S *s), "_ZNSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv") { return s->open; }
D(bool, vfi_good(void *i), "_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv") { return of_ios(i)->state == 0; }
D(bool, vfi_eof(void *i), "_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv") { return of_ios(i)->state & EOFB; }
D(bool, vfi_fail(void *i), "_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv") { return of_ios(i)->state & (FAIL | BAD); }
D(bool, vfi_bad(void *i), "_ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv") { return of_ios(i)->state & BAD; }
D(bool, vfi_not(void *i), "_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv") { return of_ios(i)->state & (FAIL | BAD); }
D(bool, vfi_bool(void *i), "_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv") { return !(of_ios(i)->state & (FAIL | BAD)); }
D(int, vfi_rd(void *i), "_ZNKSt9basic_iosIcSt11char_traitsIcEE7rdstateEv") { return of_ios(i)->state; }
D(void, vfi_clear(void *i, int f), "_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate") { of_ios(i)->state = of_ios(i)->open ? f : f; }
D(void, vfi_set(void *i, int f), "_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate") { of_ios(i)->state |= f; }
D(long, vfi_gc(const S *s), "_ZNKSi6gcountEv") { return s->gcount; }
D(int, vfi_peek(S *s), "_ZNSi4peekEv") {
  s->gcount = 0;
  if (!sentry(s)) return -1;
  if (!s->open || at_end(s)) {
    s->state |= EOFB;
    return -1;
  }
  if (rest(s) == 0) return '\n';
  return (unsigned char)vf_f_text[s->line][s->col];
}
D(int, vfi_get(S *s), "_ZNSi3getEv") {
  s->gcount = 0;
  if (!sentry(s)) return -1;
  if (!s->open || at_end(s)) {
    s->state |= EOFB | FAIL;
    return -1;
  }
  s->gcount = 1;
  if (rest(s) == 0) {
    s->line++, s->col = 0;
    return '\n';
  }
  return (unsigned char)vf_f_text[s->line][s->col++];
}
D(P, vfi_tellg(S *s), "_ZNSi5tellgEv") {
  if (!sentry(s)) return P{-1, 0};
  if (!s->open) return P{-1, 0};
  return P{at(s), 0};
}
D(S *, vfi_seekg(S *s, long off, long), "_ZNSi5seekgESt4fposI11__mbstate_tE") {
  s->state &= ~EOFB;
  if (!sentry(s)) return s;
  if (!s->open || off < 0) s->state |= FAIL;
  else s->line = off >> 20, s->col = off & 0xfffff;
  return s;
}
D(S *, vfi_seekg2(S *s, long off, int dir), "_ZNSi5seekgElSt12_Ios_Seekdir") {
  s->state &= ~EOFB;
  if (!sentry(s)) return s;
  vf_assume(dir == 0); // only positions from the beginning are modelled
  if (!s->open || off < 0) s->state |= FAIL;
  else s->line = off >> 20, s->col = off & 0xfffff;
  return s;
}
D(S *, vfi_getline_d(S *s, char *b, long n, char), "_ZNSi7getlineEPclc") {
  s->gcount = 0;
  if (n > 0) b[0] = 0;
  if (!sentry(s)) return s;
  if (!s->open || s->line >= vf_f_nl) {
    s->state |= EOFB | FAIL;
    return s;
  }
  long m = rest(s);
  if (m <= n - 1) {
    if (m > 0) std::memcpy(b, vf_f_text[s->line] + s->col, m);
    b[m] = 0;
    s->gcount = m;
    if (s->line == vf_f_nl - 1 && vf_f_nonl) {
      s->state |= m ? EOFB : EOFB | FAIL;
      s->col += m;
    } else {
      s->gcount++;
      s->line++, s->col = 0;
    }
  } else {
    if (n > 1) std::memcpy(b, vf_f_text[s->line] + s->col, n - 1);
    b[n - 1] = 0;
    s->col += n - 1;
    s->gcount = n - 1;
    s->state |= FAIL;
  }
  return s;
}
D(S *, vfi_getline(S *s, char *b, long n), "_ZNSi7getlineEPcl") { return vfi_getline_d(s, b, n, '\n'); }
}
