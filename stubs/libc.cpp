// Reference implementations of the C string functions that search in a text,
// linked into the verified module so that their loops are verified like the
// loops of the code itself (a text without terminator, or a length beyond the
// object, is a memory violation).  The C library's own versions are trusted to
// behave like these (C17 7.24).  Built with -fno-builtin.
#include <cstddef>
extern "C" {
char *strchr(const char *s, int c) {
  for (;; ++s) {
    if (*s == (char)c) return const_cast<char *>(s);
    if (!*s) return nullptr;
  }
}
char *strchrnul(const char *s, int c) {
  while (*s && *s != (char)c) ++s;
  return const_cast<char *>(s);
}
char *strrchr(const char *s, int c) {
  const char *r = nullptr;
  for (;; ++s) {
    if (*s == (char)c) r = s;
    if (!*s) return const_cast<char *>(r);
  }
}
static bool vf_in_set(char c, const char *set) {
  for (; *set; ++set)
    if (*set == c) return true;
  return false;
}
std::size_t strspn(const char *s, const char *set) {
  std::size_t n = 0;
  while (s[n] && vf_in_set(s[n], set)) ++n;
  return n;
}
std::size_t strcspn(const char *s, const char *set) {
  std::size_t n = 0;
  while (s[n] && !vf_in_set(s[n], set)) ++n;
  return n;
}
char *strpbrk(const char *s, const char *set) {
  for (; *s; ++s)
    if (vf_in_set(*s, set)) return const_cast<char *>(s);
  return nullptr;
}
void *memchr(const void *p, int c, std::size_t n) {
  const unsigned char *s = static_cast<const unsigned char *>(p);
  for (std::size_t i = 0; i < n; ++i)
    if (s[i] == (unsigned char)c) return const_cast<unsigned char *>(s + i);
  return nullptr;
}
void *memrchr(const void *p, int c, std::size_t n) {
  const unsigned char *s = static_cast<const unsigned char *>(p);
  for (std::size_t i = n; i > 0; --i)
    if (s[i - 1] == (unsigned char)c) return const_cast<unsigned char *>(s + i - 1);
  return nullptr;
}
char *strstr(const char *s, const char *t) {
  for (;; ++s) {
    std::size_t k = 0;
    while (t[k] && s[k] == t[k]) ++k;
    if (!t[k]) return const_cast<char *>(s);
    if (!*s) return nullptr;
  }
}
static int vf_low(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) {
  for (;; ++a, ++b) {
    int d = vf_low(*a) - vf_low(*b);
    if (d || !*a) return d;
  }
}
int strncasecmp(const char *a, const char *b, std::size_t n) {
  for (; n; ++a, ++b, --n) {
    int d = vf_low(*a) - vf_low(*b);
    if (d || !*a) return d;
  }
  return 0;
}
}
