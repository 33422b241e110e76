// Verification intrinsics.  Symbolically: interpreted by llvc (builtins_.py).
// Natively: vf_native.cpp feeds the values of a counterexample (replay) or
// random values (search).
#ifndef VF_H
#define VF_H
#include <cstddef>
#include <cstdint>
#include <string>
extern "C" {
int8_t vf_i8(const char *name);
int16_t vf_i16(const char *name);
int32_t vf_i32(const char *name);
int64_t vf_i64(const char *name);
int64_t vf_in(const char *name, int64_t lo, int64_t hi); // lo <= v <= hi
bool vf_bool(const char *name);
double vf_real(const char *name);
// any real; natively sampled in [lo,hi] (counterexamples outside are not replayed)
double vf_real_hint(const char *name, double lo, double hi);
void vf_bytes(void *p, std::size_t n, const char *name); // n arbitrary bytes
void vf_chars(void *p, std::size_t n, const char *set, const char *name); // n bytes of the set
char *vf_cstr(const char *name, std::size_t maxlen);     // arbitrary C string
void *vf_vec(const char *name, std::size_t n, std::size_t stride, const char *fields);
void vf_assume(bool);                          // requires
void vf_assert(bool, const char *label);       // ensures
void vf_assert_eq(double, double, const char *label);
// equal as reals; natively equal within an absolute tolerance
void vf_assert_near(double, double, double tol, const char *label);
// lemma: |e| <= bound, hence |e (sin a - sin b)| <= bound |a - b|
void vf_lemma_factor(double e, double bound);
bool vf_real_eq(double, double);
bool vf_symbolic();
void vf_cover(const char *label);
bool vf_split(bool);
int64_t vf_concretize(int64_t);
}
#define VF_UNBOUNDED ((std::size_t)1 << 32)
#define CONTRACT(name) extern "C" void vc_##name()
#endif
