// libstdc++ implements std::find/find_if over random-access iterators with a
// loop unrolled by hand four times.  This header, force-included by the checks,
// adds a more specialised overload with the plain loop of the same meaning, so
// that the loop of the code under verification is the loop the verifier sees.
// (Trusted: std::find_if returns the first position that satisfies the
// predicate, or the end.)
#ifndef VF_PLAIN_FIND_H
#define VF_PLAIN_FIND_H
#ifdef __cplusplus
#include <bits/stl_algobase.h>
#include <bits/stl_iterator.h>
namespace std {
template <typename T, typename P>
T *__find_if(T *a, T *b, P p, random_access_iterator_tag) {
  while (a != b && !p(a)) ++a;
  return a;
}
template <typename T, typename C, typename P>
__gnu_cxx::__normal_iterator<T, C> __find_if(__gnu_cxx::__normal_iterator<T, C> a, __gnu_cxx::__normal_iterator<T, C> b, P p, random_access_iterator_tag) {
  while (a != b && !p(a)) ++a;
  return a;
}
} // namespace std
#endif
#endif
