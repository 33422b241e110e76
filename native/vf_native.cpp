// Native counterpart of the verification intrinsics: replays a counterexample
// of the verifier against the real code (ASan+UBSan build), or searches for a
// failing input at random (bounded stand-in).
//   prog replay CONTRACT FILE
//   prog search CONTRACT SEED SECONDS OUTFILE
#include "vf.h"
#include <cmath>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace {
struct Reject {};
struct In { std::string kind, name, val; };
std::vector<In> script;
std::size_t pos;
bool replaying;
std::mt19937_64 rng;
std::vector<In> log_;
std::vector<void *> allocs;
std::string failed, outfile;
unsigned long asserts_checked;

void die(const std::string &why) {
  if (failed.empty()) failed = why;
  if (!outfile.empty()) {
    FILE *f = std::fopen(outfile.c_str(), "w");
    if (f) {
      std::fprintf(f, "# %s\n", failed.c_str());
      for (auto &i : log_) std::fprintf(f, "%s %s %s\n", i.kind.c_str(), i.name.c_str(), i.val.c_str());
      std::fclose(f);
    }
  }
  std::printf("FAILED %s\n", failed.c_str());
  std::fflush(stdout);
}
void on_death() { die("memory error, undefined behaviour or abort (sanitizer report)"); }
void on_term() {
  die("an exception escapes a function that promises not to throw");
  _exit(3);
}
std::string next(const char *kind, const char *name, bool &have) {
  have = false;
  if (!replaying) return "";
  if (pos < script.size()) {
    In &i = script[pos++];
    if (i.kind == kind) { have = true; return i.val; }
  }
  return "";
}
void rec(const char *k, const char *n, const std::string &v) { log_.push_back({k, n, v}); }
uint64_t r64() { return rng(); }
uint64_t rn(uint64_t n) { return n ? rng() % n : 0; }
const char pool[] = "GRSECJIMCLDSIXGREC0123456789  ?NONE-+.DdEe ABPQWXYZTRMABCIJ   %/#*\t";
unsigned char rchar() {
  switch (rn(12)) {
  case 0: return 32 + rn(95);
  case 1: return 1 + rn(255);
  case 2: return ' ';
  case 3: return '0' + rn(10);
  default: return pool[rn(sizeof(pool) - 1)];
  }
}
int64_t rint(int w) {
  switch (rn(8)) {
  case 0: { static const int64_t e[] = {0, 1, -1, 2, 9, 10, 99, 100, 999, 1000, INT32_MAX, INT32_MIN, 127, -128, 32, 63};
    return e[rn(16)]; }
  case 1: return (int64_t)rn(201) - 100;
  case 2: return w == 8 ? (int64_t)rchar() : (int64_t)rn(100000) - 50000;
  case 3: return (int64_t)r64();
  case 4: return rn(8);
  case 5: return w == 8 ? (int64_t)rchar() : (int64_t)rn(40);
  default: return w == 8 ? (int64_t)pool[rn(sizeof(pool) - 1)] : (int64_t)rn(12);
  }
}
template <class T> T geti(const char *kind, const char *name) {
  bool h; std::string s = next(kind, name, h);
  T v;
  if (h) v = (T)std::strtoull(s.c_str(), nullptr, 10);
  else v = replaying ? T(0) : (T)rint(sizeof(T) * 8);
  rec(kind, name, std::to_string((unsigned long long)(typename std::make_unsigned<T>::type)v));
  return v;
}
double rreal() {
  switch (rn(8)) {
  case 0: return (double)((int64_t)rn(21) - 10);
  case 1: return (double)rn(1000000) * 0.37 - 180000.;
  case 2: return std::ldexp((double)rn(1ull << 50), -50);
  case 3: return (std::ldexp((double)rn(1ull << 50), -50) - .5) * 1e9;
  case 4: return (std::ldexp((double)rn(1ull << 50), -50) - .5) * 1e-6;
  case 5: return 0.;
  default: return (std::ldexp((double)rn(1ull << 50), -50) - .5) * 200.;
  }
}
std::string hex(const unsigned char *p, std::size_t n) {
  static const char d[] = "0123456789abcdef";
  std::string r;
  for (std::size_t i = 0; i < n; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
  return r.empty() ? "-" : r;
}
std::string unhex(const std::string &s) {
  std::string r;
  if (s == "-") return r;
  for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += (char)std::stoi(s.substr(i, 2), nullptr, 16);
  return r;
}
std::string d2s(double d) { char b[64]; std::snprintf(b, sizeof b, "%.17g", d); return b; }
} // namespace
extern "C" {
int8_t vf_i8(const char *n) { return geti<int8_t>("i8", n); }
int16_t vf_i16(const char *n) { return geti<int16_t>("i16", n); }
int32_t vf_i32(const char *n) { return geti<int32_t>("i32", n); }
int64_t vf_i64(const char *n) { return geti<int64_t>("i64", n); }
int64_t vf_in(const char *n, int64_t lo, int64_t hi) {
  bool h; std::string s = next("i64", n, h);
  int64_t v;
  if (h) v = (int64_t)std::strtoull(s.c_str(), nullptr, 10);
  else if (replaying) v = lo;
  else {
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    v = rn(8) == 0 ? lo : rn(8) == 0 ? hi : (int64_t)((uint64_t)lo + (span == ~0ull ? rint(64) : rn(span + 1)));
  }
  rec("i64", n, std::to_string((unsigned long long)v));
  if (v < lo || v > hi) throw Reject{};
  return v;
}
bool vf_bool(const char *n) {
  bool h; std::string s = next("bool", n, h);
  bool v = h ? s != "0" : (replaying ? false : rn(2));
  rec("bool", n, v ? "1" : "0");
  return v;
}
double vf_real(const char *n) {
  bool h; std::string s = next("real", n, h);
  double v = h ? std::strtod(s.c_str(), nullptr) : (replaying ? 0. : rreal());
  rec("real", n, d2s(v));
  return v;
}
double vf_real_hint(const char *n, double lo, double hi) {
  bool h; std::string s = next("real", n, h);
  double v = h ? std::strtod(s.c_str(), nullptr) : 0.;
  if (!h && !replaying) {
    double u = std::ldexp((double)rn(1ull << 50), -50);
    v = rn(6) ? lo + (hi - lo) * u : (lo <= 0 && hi >= 0 ? 0. : lo);
  }
  rec("real", n, d2s(v));
  if (!(v >= lo && v <= hi)) throw Reject{};
  return v;
}
void vf_bytes(void *p, std::size_t n, const char *nm) {
  bool h; std::string s = next("bytes", nm, h);
  auto *c = (unsigned char *)p;
  if (h) { s = unhex(s); s.resize(n); std::memcpy(p, s.data(), n); }
  else for (std::size_t i = 0; i < n; i++) c[i] = replaying ? 0 : (rn(12) ? rchar() : 0);
  rec("bytes", nm, hex(c, n));
}
void vf_chars(void *p, std::size_t n, const char *set, const char *nm) {
  bool h; std::string s = next("bytes", nm, h);
  auto *c = (unsigned char *)p;
  if (h) { s = unhex(s); s.resize(n); std::memcpy(p, s.data(), n); }
  else for (std::size_t i = 0; i < n; i++) c[i] = replaying ? set[0] : set[rn(std::strlen(set))];
  rec("bytes", nm, hex(c, n));
  for (std::size_t i = 0; i < n; i++) if (!c[i] || !std::strchr(set, c[i])) throw Reject{};
}
char *vf_cstr(const char *nm, std::size_t mx) {
  bool h; std::string s = next("cstr", nm, h);
  if (h) s = unhex(s);
  else if (!replaying) {
    std::size_t l;
    switch (rn(6)) {
    case 0: l = rn(4); break;
    case 1: l = rn(300); break;
    case 2: l = 14 + rn(10); break;
    default: l = rn(30);
    }
    if (l > mx) l = mx ? rn(mx + 1) : 0;
    int mode = rn(4);
    for (std::size_t i = 0; i < l; i++) {
      unsigned char c = mode == 0 && rn(4) ? ' ' : rchar();
      s += (char)(c ? c : ' ');
    }
    if (mode == 1 && l > 2) { std::size_t k = rn(l); for (std::size_t i = k; i < l; i++) s[i] = ' '; }
  }
  char *p = (char *)std::malloc(s.size() + 1);
  std::memcpy(p, s.c_str(), s.size() + 1);
  allocs.push_back(p);
  rec("cstr", nm, hex((unsigned char *)p, s.size()));
  return p;
}
void *vf_vec(const char *nm, std::size_t n, std::size_t stride, const char *fields) {
  bool h; std::string s = next("vec", nm, h);
  if (n > 100000) throw Reject{};
  struct F { int off, sz; char k; };
  std::vector<F> fs;
  { std::stringstream ss(fields); std::string x;
    while (std::getline(ss, x, ',')) { F f; char kb[16]; std::sscanf(x.c_str(), "%d:%d:%15s", &f.off, &f.sz, kb); f.k = kb[0]; fs.push_back(f); } }
  char *p = (char *)std::malloc(n * stride + 1);
  std::memset(p, 0, n * stride + 1);
  allocs.push_back(p);
  std::stringstream in(s);
  std::string tok, out = std::to_string(n);
  if (h) in >> tok;
  for (std::size_t j = 0; j < n; j++)
    for (auto &f : fs) {
      std::string v;
      if (!(h && (in >> v))) {
        if (f.k == 'r') v = d2s(replaying ? 0. : rreal());
        else v = std::to_string((unsigned long long)(replaying ? 0 : (uint64_t)rint(f.sz * 8)));
      }
      if (f.k == 'r') { double d = std::strtod(v.c_str(), nullptr); std::memcpy(p + j * stride + f.off, &d, 8); }
      else { uint64_t u = std::strtoull(v.c_str(), nullptr, 10); std::memcpy(p + j * stride + f.off, &u, f.sz); }
      out += " " + v;
    }
  rec("vec", nm, out);
  return p;
}
void vf_assume(bool c) { if (!c) throw Reject{}; }
void vf_assert(bool c, const char *l) {
  ++asserts_checked;
  if (!c) { die(std::string("ensures ") + l); _exit(3); }
}
void vf_lemma_factor(double, double) {}
bool vf_real_eq(double a, double b) {
  if (a == b) return true;
  double m = std::fmax(std::fabs(a), std::fabs(b));
  return std::fabs(a - b) <= 1e-7 * m + 1e-12;
}
void vf_assert_eq(double a, double b, const char *l) {
  ++asserts_checked;
  if (!vf_real_eq(a, b)) { die(std::string("ensures ") + l + " (" + d2s(a) + " vs " + d2s(b) + ")"); _exit(3); }
}
void vf_assert_near(double a, double b, double tol, const char *l) {
  ++asserts_checked;
  if (!(std::fabs(a - b) <= tol)) { die(std::string("ensures ") + l + " (" + d2s(a) + " vs " + d2s(b) + ")"); _exit(3); }
}
bool vf_symbolic() { return false; }
void vf_cover(const char *) {}
bool vf_split(bool b) { return b; }
int64_t vf_concretize(int64_t v) { return v; }
}
int main(int argc, char **argv) {
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
  if (argc < 4) return 2;
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, (std::string("vc_") + argv[2]).c_str());
  if (!fn) { std::fprintf(stderr, "no contract %s\n", argv[2]); return 2; }
  __sanitizer_set_death_callback(on_death);
  std::set_terminate(on_term);
  if (!std::strcmp(argv[1], "replay")) {
    replaying = true;
    std::ifstream f(argv[3]);
    std::string l;
    while (std::getline(f, l)) {
      if (l.empty() || l[0] == '#') continue;
      std::size_t a = l.find(' '), b = l.rfind(' ');
      if (a == std::string::npos || b <= a) continue;
      script.push_back({l.substr(0, a), l.substr(a + 1, b - a - 1), l.substr(b + 1)});
    }
    try { fn(); } catch (Reject &) { std::printf("REJECTED\n"); return 0; }
    catch (...) { die("uncaught exception"); return 3; }
    std::printf("PASSED\n");
    return 0;
  }
  unsigned long seed = std::strtoul(argv[3], nullptr, 10);
  double secs = std::strtod(argv[4], nullptr);
  outfile = argv[5];
  std::clock_t t0 = std::clock();
  unsigned long runs = 0, rej = 0;
  for (unsigned long k = 0;; k++) {
    if (double(std::clock() - t0) / CLOCKS_PER_SEC > secs) break;
    rng.seed(seed * 1000003ul + k);
    log_.clear();
    try { fn(); ++runs; } catch (Reject &) { ++rej; }
    catch (...) { die("uncaught exception"); return 3; }
    for (void *p : allocs) std::free(p);
    allocs.clear();
  }
  std::printf("SEARCH runs=%lu rejected=%lu asserts=%lu\n", runs, rej, asserts_checked);
  return 0;
}
