/* The operators the C++ interface of the headers defines for times, signals and ionosphere parameters. */
#include <swiftnav/gnss_time.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/signal.h>
#include "sigref.h"
#include "spec.h"

#define W 604800.0
#define E 1e-6

static gps_time_t valid_time(const char *wn, const char *tow) {
  gps_time_t t;
  t.wn = (s16)spec_any_u(15, wn);
  t.tow = spec_any_d(tow);
  spec_assume(t.tow >= 0 && t.tow < W);
  return t;
}
static double tot(gps_time_t t) { return t.tow + W * t.wn; }

/* the order of two instants that differ by more than a microsecond, and of equal ones */
static void relation(gps_time_t a, gps_time_t b, int less, int more) {
  LIB;
  bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b;
  SPEC;
  int same = !less && !more;
  spec_eq_u(lt, less, "earlier");
  spec_eq_u(gt, more, "later");
  spec_eq_u(eq, same, "equal");
  spec_eq_u(le, less || same, "not later");
  spec_eq_u(ge, more || same, "not earlier");
}

extern "C" void h_time_order(void) {
  SPEC;
  gps_time_t a = valid_time("a.wn", "a.tow"), b = valid_time("b.wn", "b.tow");
  spec_begin();
  spec_assume(tot(a) - tot(b) > E);
  relation(a, b, 0, 1);
  spec_end();
  spec_begin();
  spec_assume(tot(a) - tot(b) < -E);
  relation(a, b, 1, 0);
  spec_end();
  relation(a, a, 0, 0);
}

/* one week number unknown: the times are at most half a week apart and never equal */
extern "C" void h_time_order_unknown(void) {
  SPEC;
  gps_time_t a = valid_time("a.wn", "a.tow"), b = valid_time("b.wn", "b.tow");
  int one = (int)spec_any_u(1, "which");
  if (one) {
    a.wn = -1;
  } else {
    b.wn = -1;
  }
  LIB;
  bool eq = a == b, lt = a < b, gt = a > b;
  SPEC;
  double x = a.tow - b.tow;
  if (x > W / 2) x -= W;
  if (x < -W / 2) x += W;
  spec_eq_u(eq, 0, "a known and an unknown week are not equal");
  spec_begin();
  spec_assume(x > E);
  spec_check(gt && !lt, "later");
  spec_end();
  spec_begin();
  spec_assume(x < -E);
  spec_check(lt && !gt, "earlier");
  spec_end();
}

static void shifted(gps_time_t u, double r, int wn, const char *what) {
  spec_eq_d(u.tow, r, what);
  spec_eq_i(u.wn, wn, what);
}

/* adding and subtracting seconds moves the instant, and only the named operand */
extern "C" void h_time_shift(void) {
  SPEC;
  gps_time_t t = valid_time("wn", "tow");
  spec_assume(t.wn > 10 && t.wn < 32000);
  double s = spec_any_d("secs");
  spec_assume(s > -1.5 * W && s < 1.5 * W);
  for (int sign = 1; sign >= -1; sign -= 2) {
    spec_begin();
    double x = t.tow + sign * s;
    int k = x < -W ? -2 : x < 0 ? -1 : x < W ? 0 : x < 2 * W ? 1 : 2;
    double r = x - k * W;
    gps_time_t u = t, v = t;
    LIB;
    gps_time_t p, q;
    if (sign > 0) {
      p = t + s;
      q = s + t;
    } else {
      p = t - s;
      q = p;
    }
    SPEC;
    shifted(p, r, t.wn + k, "sum");
    shifted(q, r, t.wn + k, "sum, other order");
    LIB;
    gps_time_t *w = sign > 0 ? &(u += s) : &(v -= s);
    SPEC;
    shifted(*w, r, t.wn + k, "in place");
    spec_check(w == (sign > 0 ? &u : &v), "in place: the operand itself");
    shifted(sign > 0 ? v : u, t.tow, t.wn, "untouched copy");
    spec_end();
  }
}

extern "C" void h_time_difference(void) {
  SPEC;
  gps_time_t a = valid_time("a.wn", "a.tow"), b = valid_time("b.wn", "b.tow");
  LIB;
  double d = a - b;
  SPEC;
  spec_eq_d(d, tot(a) - tot(b), "difference");
}

static gnss_signal_t any_sid(const char *sat, const char *code) {
  gnss_signal_t s;
  s.sat = (u16)spec_any_u(16, sat);
  s.code = (code_t)spec_any_u(6, code);
  return s;
}
/* constellation, then code, then satellite */
static int order(gnss_signal_t a, gnss_signal_t b) {
  int ca = ref[a.code & 63].cons, cb = ref[b.code & 63].cons;
  if (ca != cb) return ca < cb ? -1 : 1;
  if (a.code != b.code) return a.code < b.code ? -1 : 1;
  return a.sat < b.sat ? -1 : a.sat > b.sat ? 1 : 0;
}
extern "C" void h_sid_order(void) {
  SPEC;
  gnss_signal_t a = any_sid("a.sat", "a.code"), b = any_sid("b.sat", "b.code");
  LIB;
  bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b, ne = a != b;
  SPEC;
  int o = order(a, b);
  spec_eq_u(eq, o == 0, "equal");
  spec_eq_u(ne, o != 0, "not equal");
  spec_eq_u(lt, o < 0, "before");
  spec_eq_u(gt, o > 0, "after");
  spec_eq_u(le, o <= 0, "not after");
  spec_eq_u(ge, o >= 0, "not before");
}

/* equality of ionosphere parameters looks at every field */
extern "C" void h_iono_equal(void) {
  SPEC;
  ionosphere_t a, b;
  a.toa = valid_time("toa.wn", "toa.tow");
  double *pa[8] = {&a.a0, &a.a1, &a.a2, &a.a3, &a.b0, &a.b1, &a.b2, &a.b3};
  double *pb[8] = {&b.a0, &b.a1, &b.a2, &b.a3, &b.b0, &b.b1, &b.b2, &b.b3};
  for (int i = 0; i < 8; i++) *pa[i] = spec_any_d("parameter");
  b = a;
  LIB;
  bool eq = a == b;
  SPEC;
  spec_eq_u(eq, 1, "equal to a copy");
  double d = spec_any_d("change");
  spec_assume((d > 1e-9 && d < 1e9) || (d < -1e-9 && d > -1e9));
  for (int i = 0; i < 8; i++) {
    spec_begin();
    *pb[i] = *pa[i] + d;
    LIB;
    bool e = a == b, f = b == a;
    SPEC;
    spec_eq_u(e, 0, "a parameter differs");
    spec_eq_u(f, 0, "a parameter differs, other order");
    spec_end();
    *pb[i] = *pa[i];
  }
  spec_begin();
  b.toa = valid_time("toa2.wn", "toa2.tow");
  double x = tot(b.toa) - tot(a.toa);
  spec_assume(x > E || x < -E);
  LIB;
  bool e = a == b;
  SPEC;
  spec_eq_u(e, 0, "the reference time differs");
  spec_end();
}
