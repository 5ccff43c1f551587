#ifndef UTIL_H
#define UTIL_H
#include "spec.h"
/* two's complement of an n-bit field */
static inline int64_t sx(uint64_t v, int n) {
  uint64_t s = (uint64_t)1 << (n - 1);
  return (int64_t)((v ^ s)) - (int64_t)s;
}
/* 2^e */
static inline double p2(int e) {
  double r = 1.0;
  for (int i = 0; i < (e < 0 ? -e : e); i++) r = e < 0 ? r / 2.0 : r * 2.0;
  return r;
}
#endif
