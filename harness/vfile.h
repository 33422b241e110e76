// A file of lines for contracts on stream-reading code.  In the verifier the
// ghost file of stubs/ifstream.cpp; natively a memory file read by the real
// std::ifstream.
#ifndef VFILE_H
#define VFILE_H
#include "vf.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#ifdef VF_NATIVE
#include <sys/mman.h>
#include <unistd.h>
static long vf_f_nl;
static const char *vf_f_text[1200];
static long vf_f_len[1200];
static bool vf_f_nonl, vf_f_missing;
#else
extern "C" {
extern long vf_f_nl;
extern const char *vf_f_text[1200];
extern long vf_f_len[1200];
extern bool vf_f_nonl, vf_f_missing;
}
#endif
static inline void vf_begin() {
  vf_f_nl = 0;
  vf_f_nonl = vf_f_missing = false;
}
static inline void vf_line(const char *t, long len) {
  vf_f_text[vf_f_nl] = t;
  vf_f_len[vf_f_nl] = len;
  vf_f_nl = vf_f_nl + 1;
}
static inline const char *vf_file() {
#ifdef VF_NATIVE
  static int fd = -1;
  static char name[64];
  if (fd >= 0) close(fd);
  fd = memfd_create("vf", 0);
  for (long i = 0; i < vf_f_nl; i++) {
    if (write(fd, vf_f_text[i], vf_f_len[i]) < 0) abort();
    if (!(vf_f_nonl && i == vf_f_nl - 1) && write(fd, "\n", 1) < 0) abort();
  }
  std::snprintf(name, sizeof name, vf_f_missing ? "/nonexistent/file" : "/proc/self/fd/%d", fd);
  return name;
#else
  return "file";
#endif
}
#endif
