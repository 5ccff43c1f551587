#include <swiftnav/memcpy_s.h>
#include <swiftnav/set.h>
#include <swiftnav/sid_set.h>
#include "util.h"

/* Elements carry a key (compared) and a tag (not compared, must travel with the element). The set operations are
   generic in the element type: they only copy elements and ask the comparison function, so eight ordered keys are
   enough to realise every ordering pattern of the sizes analysed. */
typedef struct {
  u8 key, tag;
} el;
static int cmp_el(const void *a, const void *b) {
  const el *x = a, *y = b;
  return x->key < y->key ? -3 : x->key > y->key ? 7 : 0;
}
static void fill(el *e, u32 n, int sorted) {
  for (u32 i = 0; i < n; i++) {
    e[i].key = (u8)spec_any_u(3, "key");
    e[i].tag = (u8)spec_any_u(8, "tag");
    if (sorted && i) spec_assume(e[i].key > e[i - 1].key);
  }
}
#define MAXN 3
static void inter(u32 na, u32 nb, bool oa, bool ob) {
  spec_begin();
  el *a = (el *)__builtin_alloca(na * sizeof(el) + 1), *b = (el *)__builtin_alloca(nb * sizeof(el) + 1);
  u32 m = na < nb ? na : nb;
  el *xa = (el *)__builtin_alloca(m * sizeof(el) + 1), *xb = (el *)__builtin_alloca(m * sizeof(el) + 1);
  fill(a, na, 1), fill(b, nb, 1);
  LIB;
  s32 n = intersection(na, sizeof(el), a, oa ? xa : NULL, nb, sizeof(el), b, ob ? xb : NULL, cmp_el);
  SPEC;
  s32 w = 0;
  for (u32 i = 0; i < na; i++)
    for (u32 j = 0; j < nb; j++)
      if (a[i].key == b[j].key) {
        if (oa) {
          spec_eq_u(xa[w].key, a[i].key, "common key (a)");
          spec_eq_u(xa[w].tag, a[i].tag, "common element of a");
        }
        if (ob) {
          spec_eq_u(xb[w].key, b[j].key, "common key (b)");
          spec_eq_u(xb[w].tag, b[j].tag, "common element of b");
        }
        w++;
      }
  spec_eq_i(n, w, "number of common elements");
  spec_end();
}
void h_intersection(void) {
  for (u32 na = 0; na <= MAXN; na++)
    for (u32 nb = 0; nb <= MAXN; nb++) inter(na, nb, 1, 1);
  inter(2, 3, 0, 1);
  inter(3, 2, 1, 0);
  inter(2, 2, 0, 0);
}
void h_intersection5(void) {
  inter(4, 2, 1, 1);
  inter(1, 4, 1, 1);
}
/* the callback sees the running count and both elements */
static u32 calls;
static const el *ga, *gb;
static void *gctx;
static void cb(void *ctx, u32 n, const void *a, const void *b) {
  spec_eq_u(n, calls, "callback index");
  spec_check(ctx == gctx, "context passed through");
  spec_check(((const el *)a)->key == ((const el *)b)->key, "callback elements are equal");
  calls++;
}
void h_map(void) {
  el a[3], b[3];
  fill(a, 3, 1), fill(b, 3, 1);
  ga = a, gb = b, gctx = &calls, calls = 0;
  LIB;
  s32 n = intersection_map(3, sizeof(el), a, 3, sizeof(el), b, cmp_el, &calls, cb);
  SPEC;
  spec_eq_i(n, (s32)calls, "one call per common element");
}
static u32 lower(const el *a, u32 n, const el *b) {
  u32 k = 0;
  while (k < n && a[k].key < b->key) k++;
  return k;
}
void h_insert(void) {
  for (u32 n = 0; n <= 4; n++) {
    spec_begin();
    el *a = (el *)__builtin_alloca(n * sizeof(el) + 1), *o = (el *)__builtin_alloca((n + 1) * sizeof(el));
    el b;
    fill(a, n, 1), fill(&b, 1, 0);
    LIB;
    u32 idx = insertion_index(n, sizeof(el), a, &b, cmp_el);
    u32 at = insert_element(n, sizeof(el), a, o, &b, cmp_el);
    SPEC;
    u32 k = lower(a, n, &b);
    spec_eq_u(idx, k, "insertion index");
    spec_eq_u(at, k, "index of the inserted element");
    for (u32 i = 0; i <= n; i++) {
      el e = i < k ? a[i] : i == k ? b : a[i - 1];
      spec_eq_u(o[i].key, e.key, "key after insertion");
      spec_eq_u(o[i].tag, e.tag, "element after insertion");
    }
    spec_end();
  }
}
void h_remove(void) {
  for (u32 n = 0; n <= 4; n++) {
    spec_begin();
    el *a = (el *)__builtin_alloca(n * sizeof(el) + 1);
    u32 m = n ? n - 1 : 0;
    el *o = (el *)__builtin_alloca(m * sizeof(el) + 1);
    el b;
    fill(a, n, 1), fill(&b, 1, 0);
    LIB;
    u32 at = remove_element(n, sizeof(el), a, o, &b, cmp_el);
    SPEC;
    u32 k = lower(a, n, &b);
    if (n && k == n) k = n - 1; /* larger than all: the last element goes */
    spec_eq_u(at, k, "index of the removed element");
    for (u32 i = 0; i < m; i++) {
      el e = i < k ? a[i] : a[i + 1];
      spec_eq_u(o[i].key, e.key, "key after removal");
      spec_eq_u(o[i].tag, e.tag, "element after removal");
    }
    spec_end();
  }
}
void h_is_set(void) {
  for (u8 n = 0; n <= 5; n++) {
    spec_begin();
    el a[6];
    fill(a, 6, 0);
    LIB;
    bool r = is_set(n, sizeof(el), a, cmp_el);
    SPEC;
    bool w = true;
    for (u8 i = 1; i < n; i++) w = w && a[i - 1].key < a[i].key;
    spec_eq_u(r, w, "strictly increasing");
    spec_end();
  }
}
static int cons_of(int c) {
  return c == 59 || (c >= 56 && c <= 58) || c <= 1 || (c >= 5 && c <= 11) ? 0
         : c == 2 || (c >= 41 && c <= 43) || c == 60                       ? 1
         : c == 3 || c == 4 || c == 29 || c == 30                          ? 2
         : c == 12 || c == 13 || (c >= 44 && c <= 55) || c == 63           ? 3
         : (c >= 31 && c <= 40) || c == 62                                 ? 4
                                                                           : 5;
}
void h_is_sid_set(void) {
  for (u8 n = 0; n <= 3; n++) {
    spec_begin();
    gnss_signal_t s[3];
    for (int i = 0; i < 3; i++) {
      s[i].sat = (u16)spec_any_u(16, "sat");
      s[i].code = (code_t)spec_any_u(6, "code");
    }
    LIB;
    bool r = is_sid_set(n, s);
    SPEC;
    bool w = true;
    for (u8 i = 1; i < n; i++) {
      int p = cons_of((int)s[i - 1].code), q = cons_of((int)s[i].code);
      w = w && (p < q || (p == q && (s[i - 1].code < s[i].code || (s[i - 1].code == s[i].code && s[i - 1].sat < s[i].sat))));
    }
    spec_eq_u(r, w, "ordered by constellation, code, satellite");
    spec_end();
  }
}
void h_cmp(void) {
  s32 x = (s32)spec_any_i(32, "x"), y = (s32)spec_any_i(32, "y");
  LIB;
  int r = cmp_s32_s32(&x, &y);
  SPEC;
  spec_eq_i(r, x < y ? -1 : x > y, "sign of comparison");
}

/* memcpy_s inside one arena, so that every overlap pattern of the two ranges is covered */
void h_memcpy_s(void) {
  u8 m[10], m0[10];
  spec_fill(m, 10, "arena");
  memcpy(m0, m, 10);
  u32 d = (u32)spec_any_u(2, "dest"), s = (u32)spec_any_u(2, "src");
  size_t ds = (size_t)spec_any_u(3, "destsize"), n = (size_t)spec_any_u(3, "count");
  spec_assume(d + ds <= 10 && s + n <= 10);
  bool dn = spec_any_u(1, "dest null"), sn = spec_any_u(1, "src null");
  LIB;
  memcpy_s_t r = memcpy_s(dn ? NULL : m + d, ds, sn ? NULL : m + s, n);
  SPEC;
  memcpy_s_t w;
  if (dn)
    w = MEMCPY_S_DEST_NULL;
  else if (sn)
    w = MEMCPY_S_SRC_NULL;
  else if (ds == 0)
    w = MEMCPY_S_DEST_SIZE_ZERO;
  else if (n == 0)
    w = MEMCPY_S_SRC_SIZE_ZERO;
  else if (n > ds)
    w = MEMCPY_S_OVERSIZED;
  else if ((s > d && s < d + ds) || (d > s && d < s + n))
    w = MEMCPY_S_OVERLAP;
  else
    w = MEMCPY_S_OK;
  spec_eq_i(r, w, "verdict");
  for (u32 i = 0; i < 10; i++) {
    u32 k = i - d + s;
    spec_eq_u(m[i], r == MEMCPY_S_OK && i >= d && i < d + n ? m0[k % 10] : m0[i], "memory");
  }
}
void h_memcpy_big(void) {
  /* any size: nothing beyond the destination is ever written */
  u8 d[4], s[4], d0[4];
  spec_fill(d, 4, "d");
  memcpy(d0, d, 4);
  spec_fill(s, 4, "s");
  size_t ds = (size_t)spec_any_u(64, "destsize"), n = (size_t)spec_any_u(64, "count");
  spec_assume(n <= ds ? ds <= 4 : 1);
  LIB;
  memcpy_s_t r = memcpy_s(d, ds, s, n);
  SPEC;
  spec_eq_u(r == MEMCPY_S_OK, n != 0 && n <= ds, "accepted");
  for (u32 i = 0; i < 4; i++) spec_eq_u(d[i], r == MEMCPY_S_OK && i < n ? s[i] : d0[i], "memory");
}
