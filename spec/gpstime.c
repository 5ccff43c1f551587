/* GPS time arithmetic: validity, normalisation, differences, week resolution, epochs. */
#include <swiftnav/gnss_time.h>
#include "spec.h"

gps_time_t round_to_epoch(const gps_time_t *time, double soln_freq);
gps_time_t floor_to_epoch(const gps_time_t *time, double soln_freq);

#define W 604800.0
#define NOTQUITE1 (1.0 - 1.0 / (1ll << 40))

static gps_time_t valid_time(const char *wn, const char *tow) {
  gps_time_t t;
  t.wn = (s16)spec_any_u(15, wn);
  t.tow = spec_any_d(tow);
  spec_assume(t.tow >= 0 && t.tow < W);
  return t;
}
static double tot(gps_time_t t) { return t.tow + W * t.wn; }

/* validity predicates, for every bit pattern including infinities and NaN */
static void valid(double tow) {
  spec_begin();
  SPEC;
  gps_time_t t;
  t.wn = (s16)spec_any_i(16, "wn");
  t.tow = tow;
  u16 ref = spec_any_u(16, "wn_ref");
  LIB;
  bool v = gps_time_valid(&t);
  bool c = gps_current_time_valid_with_wn_ref(&t, ref);
  bool c0 = gps_current_time_valid(&t);
  SPEC;
  int ok = t.tow >= 0 && t.tow < W && t.wn >= 0;
  spec_eq_u(v, ok, "valid");
  spec_eq_u(c, ok && t.wn >= (int)ref && t.wn < (int)ref + 1023, "valid and in the current week cycle");
  spec_eq_u(c0, ok && t.wn >= 1876 && t.wn < 1876 + 1023, "valid and in the current week cycle, default reference");
  spec_end();
}
void h_valid(void) {
  SPEC;
  double x = spec_any_d("tow");
  spec_begin();
  spec_assume(x >= -1e30 && x <= 1e30);
  valid(x);
  spec_end();
  spec_begin();
  spec_assume(x < -1e30);
  valid(x);
  spec_end();
  spec_begin();
  spec_assume(x > 1e30);
  valid(x);
  spec_end();
  valid(NAN);
  valid(INFINITY);
  valid(-INFINITY);
}

void h_unix(void) {
  SPEC;
  time_t t = spec_any_i(64, "t");
  static const u16 R[] = {0, 1, 1023, 1024, 1875, 1876, 1877, 2047, 2048, 2399, 3028, 3029, 3549, 8191, 65535};
  /* 6 January 1980 is 3657 days after 1 January 1970 */
  for (unsigned i = 0; i < sizeof R / sizeof R[0]; i++) {
    LIB;
    bool v = unix_time_valid_with_wn_ref(&t, R[i]);
    SPEC;
    spec_eq_u(v, t > 3657l * 86400 + 604800l * R[i], "after the reference week");
  }
  LIB;
  bool v0 = unix_time_valid(&t);
  SPEC;
  spec_eq_u(v0, t > 3657l * 86400 + 604800l * 1876, "after the default reference week");
}

/* up to n weeks away */
static double far(const char *name, double n) {
  double x = spec_any_d(name);
  spec_assume(x >= -n * W && x < n * W);
  return x;
}
static void split(double x, int n, int *k, double *r) {
  /* x = k weeks + r */
  *k = -n;
  for (int i = -n; i <= n; i++)
    if (x >= i * W) *k = i;
  *r = x - *k * W;
}

void h_norm(void) {
  SPEC;
  gps_time_t t, u;
  t.wn = (s16)spec_any_i(16, "wn");
  spec_assume(t.wn > -32000 && t.wn < 32000);
  t.tow = far("tow", 3);
  u = t;
  int k;
  double r;
  split(t.tow, 3, &k, &r);
  LIB;
  unsafe_normalize_gps_time(&u);
  SPEC;
  spec_eq_d(u.tow, r, "time of week");
  spec_eq_i(u.wn, t.wn + k, "week");
  u = t;
  LIB;
  bool ok = normalize_gps_time_safe(&u);
  SPEC;
  spec_eq_d(u.tow, t.wn < -1 ? t.tow : r, "time of week (checked)");
  spec_eq_i(u.wn, t.wn < -1 || t.wn == -1 ? t.wn : t.wn + k, "week (checked)");
  spec_eq_u(ok, t.wn < -1 ? 0 : t.wn == -1 ? 1 : t.wn + k >= 0, "verdict");
  spec_begin();
  spec_assume(t.wn == -1 || (t.wn >= 0 && t.wn + k >= 0));
  u = t;
  LIB;
  normalize_gps_time(&u);
  SPEC;
  spec_eq_d(u.tow, r, "time of week (asserting)");
  spec_eq_i(u.wn, t.wn == -1 ? -1 : t.wn + k, "week (asserting)");
  spec_end();
}

void h_add(void) {
  SPEC;
  gps_time_t t = valid_time("wn", "tow");
  spec_assume(t.wn < 32000);
  double s = far("secs", 2);
  gps_time_t u = t;
  int k;
  double r;
  split(t.tow + s, 3, &k, &r);
  LIB;
  add_secs(&u, s);
  SPEC;
  spec_eq_d(u.tow, r, "time of week");
  spec_eq_i(u.wn, t.wn + k, "week");
  LIB;
  double d = gpsdifftime(&u, &t);
  SPEC;
  spec_eq_d(u.wn == -1 ? s : d, s, "difference to the start");
}

void h_duration(void) {
  SPEC;
  gps_time_duration_t d, e;
  d.weeks = (s16)spec_any_i(16, "weeks");
  spec_assume(d.weeks > -32000 && d.weeks < 32000);
  d.seconds = far("seconds", 3);
  e = d;
  LIB;
  normalize_gps_time_duration(&e);
  SPEC;
  spec_eq_d(e.seconds + W * e.weeks, d.seconds + W * d.weeks, "same duration");
  spec_check(e.seconds > -W && e.seconds < W, "less than a week of seconds");
  spec_check(!(e.weeks > 0 && e.seconds < 0), "positive weeks, negative seconds");
  spec_check(!(e.weeks < 0 && e.seconds > 0), "negative weeks, positive seconds");
}

/* differences */
void h_diff(void) {
  SPEC;
  gps_time_t a = valid_time("a.wn", "a.tow"), b = valid_time("b.wn", "b.tow");
  LIB;
  double d = gpsdifftime(&a, &b), e = gpsdifftime(&b, &a);
  SPEC;
  spec_eq_d(d, tot(a) - tot(b), "difference");
  spec_eq_d(e, -(tot(a) - tot(b)), "antisymmetric");
}

void h_diff_unknown(void) {
  SPEC;
  gps_time_t a = valid_time("a.wn", "a.tow"), b = valid_time("b.wn", "b.tow");
  unsigned c = spec_any_u(2, "which");
  spec_assume(c < 3);
  if (c != 1) a.wn = -1;
  if (c != 0) b.wn = -1;
  double x = a.tow - b.tow;
  LIB;
  double d = gpsdifftime(&a, &b);
  SPEC;
  spec_eq_d(d, x > W / 2 ? x - W : x < -W / 2 ? x + W : x, "closest difference");
  spec_check(d >= -W / 2 && d <= W / 2, "within half a week");
}

void h_week_second(void) {
  SPEC;
  gps_time_t a, b;
  a.wn = (s16)spec_any_i(16, "a.wn");
  b.wn = (s16)spec_any_i(16, "b.wn");
  a.tow = far("a.tow", 2);
  b.tow = far("b.tow", 2);
  int ok = a.wn >= 0 && b.wn >= 0 && a.tow >= 0 && a.tow < W && b.tow >= 0 && b.tow < W;
  gps_time_duration_t d;
  d.weeks = 77;
  d.seconds = 1234;
  LIB;
  bool r = gpsdifftime_week_second(&a, &b, &d);
  SPEC;
  spec_eq_u(r, ok, "verdict");
  spec_eq_d(d.seconds + W * d.weeks, ok ? tot(a) - tot(b) : 0.0, "difference");
  spec_check(d.seconds > -W && d.seconds < W, "less than a week of seconds");
  spec_check(!(d.weeks > 0 && d.seconds < 0), "positive weeks, negative seconds");
  spec_check(!(d.weeks < 0 && d.seconds > 0), "negative weeks, positive seconds");
}

/* closed ranges */
void h_range(void) {
  SPEC;
  gps_time_t b = valid_time("begin.wn", "begin.tow"), e = valid_time("end.wn", "end.tow"), t = valid_time("wn", "tow");
  LIB;
  bool in = gpstime_in_range(&b, &e, &t);
  SPEC;
  spec_eq_u(in, tot(t) - tot(b) >= 0 && tot(t) - tot(b) <= tot(e) - tot(b), "in range");
}

/* an unknown week is resolved to the closest instant */
void h_match(void) {
  SPEC;
  gps_time_t t = valid_time("wn", "tow"), ref = valid_time("ref.wn", "ref.tow"), u = t;
  spec_assume(ref.wn < 32767);
  unsigned c = spec_any_u(1, "unknown");
  if (c) u.wn = -1;
  t = u;
  double x = t.tow - ref.tow;
  int want = ref.wn + (x > W / 2 ? -1 : x < -W / 2 ? 1 : 0);
  LIB;
  bool r = gps_time_match_weeks_safe(&u, &ref);
  SPEC;
  spec_eq_u(r, want >= 0, "verdict");
  spec_eq_i(u.wn, want, "week");
  spec_eq_d(u.tow, t.tow, "time of week untouched");
  spec_begin();
  spec_assume(want >= 0);
  u = t;
  LIB;
  gps_time_match_weeks(&u, &ref);
  SPEC;
  spec_eq_i(u.wn, want, "week (asserting)");
  spec_eq_d(u.tow, t.tow, "time of week untouched (asserting)");
  spec_end();
  ref.wn = -1;
  u = t;
  LIB;
  r = gps_time_match_weeks_safe(&u, &ref);
  SPEC;
  spec_eq_u(r, 1, "unknown reference accepted");
  spec_eq_i(u.wn, t.wn, "unknown reference: week untouched");
  spec_eq_d(u.tow, t.tow, "unknown reference: time of week untouched");
}

/* smallest week not before the reference that is congruent modulo the cycle */
void h_cycle(void) {
  SPEC;
  u16 raw = spec_any_u(16, "wn"), ref = spec_any_u(15, "wn_ref");
  LIB;
  u16 a = gps_adjust_week_cycle(raw, ref);
  u16 b = gps_adjust_week_cycle256(raw, ref);
  SPEC;
  spec_check(a >= ref, "not before the reference");
  spec_check((raw >= ref) == (a == raw) || a == raw, "known weeks kept");
  spec_check(((a ^ raw) & 1023) == 0, "same week modulo 1024");
  spec_check(raw >= ref ? a == raw : a - ref < 1024, "within one cycle of the reference");
  spec_check(b >= ref, "not before the reference (256)");
  spec_check(((b ^ raw) & 255) == 0, "same week modulo 256");
  spec_check(raw >= ref ? b == raw : b - ref < 256, "within one cycle of the reference (256)");
}

/* solution epochs at f Hz: n epochs into the week */
static void epoch(int f, int bits) {
  spec_begin();
  SPEC;
  gps_time_t t;
  unsigned n = spec_any_u(bits, "epoch");
  double fr = spec_any_d("fraction");
  t.wn = (s16)spec_any_u(15, "wn");
  spec_assume(t.wn < 32767);
  spec_assume(n < 604800u * f);
  spec_assume(fr >= 0 && fr <= NOTQUITE1);
  t.tow = ((double)n + fr) / f;
  int up = fr >= 0.5;
  int wrap = n + up >= 604800u * f;
  LIB;
  gps_time_t lo = floor_to_epoch(&t, f), r = round_to_epoch(&t, f);
  SPEC;
  spec_eq_d(lo.tow, (double)n / f, "last epoch");
  spec_eq_i(lo.wn, t.wn, "last epoch week");
  spec_eq_d(r.tow, wrap ? 0.0 : (double)(n + up) / f, "nearest epoch");
  spec_eq_i(r.wn, wrap ? t.wn + 1 : t.wn, "nearest epoch week");
  spec_end();
}
void h_epoch1(void) { epoch(1, 20); }
void h_epoch2(void) { epoch(2, 21); }
void h_epoch5(void) { epoch(5, 22); }
void h_epoch10(void) { epoch(10, 23); }
void h_epoch20(void) { epoch(20, 24); }
void h_epoch50(void) { epoch(50, 25); }
void h_epoch100(void) { epoch(100, 26); }
