/* GLONASS time: day in the four-year interval, Moscow time of day, with the leap second of UTC. */
#include <swiftnav/gnss_time.h>
#include "spec.h"

#define W 604800.0
#define NOTQUITE1 (1.0 - 1.0 / (1ll << 40))
static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static const int MD[2][12] = {{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31},
                              {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}};
/* leap seconds since the start of GLONASS time, and the number before */
static const int LS[][2] = {{1996, 1}, {1997, 7}, {1999, 1}, {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
#define NLS 8
#define BEFORE 10
static int days_to(int y, int m) {
  int d = -5;
  for (int k = 1980; k < y; k++) d += leap(k) ? 366 : 365;
  for (int k = 1; k < m; k++) d += MD[leap(y)][k - 1];
  return d;
}

/* the parameters in use (none: the table) and what they announce: before and from the first UTC day after the event */
static utc_params_t par;
static const utc_params_t *use;
static int ev_day, ev_before, ev_after;
static int offset(int day, int after_midnight) {
  int n = BEFORE;
  if (use) return day > ev_day || (day == ev_day && after_midnight) ? ev_after : ev_before;
  for (int i = 0; i < NLS; i++) {
    int e = days_to(LS[i][0], LS[i][1]);
    if (day > e || (day == e && after_midnight)) n = BEFORE + i + 1;
  }
  return n;
}

/* Moscow date and time to GPS time; days from..to-1 of interval n4 */
static void to_gps(int n4, int from, int to) {
  spec_begin();
  SPEC;
  int d1 = days_to(1996 + 4 * (n4 - 1), 1); /* day of nt = 1 */
  int nd = to - from;
  unsigned nt = from + spec_any_u(nd > 256 ? 9 : nd > 128 ? 8 : nd > 64 ? 7 : nd > 32 ? 6 : nd > 16 ? 5 : nd > 8 ? 4 : nd > 4 ? 3 : nd > 2 ? 2 : 1, "day");
  unsigned h = spec_any_u(5, "h"), m = spec_any_u(6, "m"), s = spec_any_u(6, "s");
  double fr = spec_any_d("fraction");
  spec_assume((int)nt < to && nt >= 1 && nt <= 1461);
  spec_assume(h < 24 && m < 60 && s < 60);
  spec_assume(fr >= 0 && fr <= NOTQUITE1);
  unsigned day = d1 + nt - 1;
  /* UTC is three hours behind: midnight UTC is 03:00 in Moscow */
  int n = offset((int)day, h >= 3);
  int x = (int)(day % 7 * 86400 + h * 3600 + m * 60 + s) - 10800 + n;
  int neg = x < 0, over = x >= 604800;
  glo_time_t g;
  g.n4 = n4;
  g.nt = nt;
  g.h = h;
  g.m = m;
  g.s = (double)s + fr;
  LIB;
  gps_time_t r = glo2gps(&g, use);
  SPEC;
  spec_eq_i(r.wn, day / 7 - neg + over, "week");
  spec_eq_d(r.tow, (double)(neg ? x + 604800 : over ? x - 604800 : x) + fr, "time of week");
  spec_end();
}

/* GPS time to Moscow date and time, every instant of one UTC day */
static void day_to_glo(int n4, int nt0) {
  spec_begin();
  SPEC;
  int day = days_to(1996 + 4 * (n4 - 1), 1) + nt0 - 1;
  unsigned sod = spec_any_u(17, "second of day");
  double fr = spec_any_d("fraction");
  spec_assume(sod < 86400);
  spec_assume(fr >= 0 && fr <= NOTQUITE1);
  int n = offset(day, 1);
  unsigned x = day % 7 * 86400 + sod + n;
  gps_time_t t;
  t.wn = (s16)(day / 7);
  if (x >= 604800) {
    t.wn++;
    x -= 604800;
  }
  t.tow = (double)x + fr;
  int len = n4 == 27 ? 1460 : 1461;
  unsigned next = sod >= 75600;
  LIB;
  glo_time_t b = gps2glo(&t, use);
  SPEC;
  spec_eq_u(b.n4, nt0 == len && next ? n4 + 1 : n4, "interval");
  spec_eq_u(b.nt, nt0 == len && next ? 1 : nt0 + next, "day");
  spec_eq_u(b.h, next ? sod / 3600 - 21 : sod / 3600 + 3, "hour");
  spec_eq_u(b.m, sod / 60 % 60, "minute");
  spec_eq_d(b.s, (double)(sod % 60) + fr, "second");
  spec_end();
}
static void to_glo(int n4, int from, int to) {
  for (int d = from; d < to; d++) day_to_glo(n4, d);
}
static void glo(int n4, int from, int to) {
  if (n4 != 27) to_gps(n4, from, to);
  to_glo(n4, from, to);
}
/* around the inserted seconds */
void h_leaps(void) {
  use = 0;
  for (int i = 0; i < NLS; i++) {
    int d = days_to(LS[i][0], LS[i][1]);
    int n4 = (LS[i][0] - 1996) / 4 + 1;
    int nt = d - days_to(1996 + 4 * (n4 - 1), 1) + 1;
    glo(n4, i == 0 ? 2 : nt - 1, nt + 2);
  }
}
/* the inserted seconds themselves: 02:59:60 */
void h_leap_second(void) {
  for (int i = 1; i < NLS; i++) {
    spec_begin();
    SPEC;
    double fr = spec_any_d("fraction");
    spec_assume(fr >= 0 && fr <= NOTQUITE1);
    int d = days_to(LS[i][0], LS[i][1]);
    int n4 = (LS[i][0] - 1996) / 4 + 1;
    long g = d * 86400l + BEFORE + i;
    gps_time_t t;
    t.wn = (s16)(g / 604800);
    t.tow = (double)(g % 604800) + fr;
    glo_time_t x;
    x.n4 = n4;
    x.nt = d - days_to(1996 + 4 * (n4 - 1), 1) + 1;
    x.h = 2;
    x.m = 59;
    x.s = 60.0 + fr;
    LIB;
    glo_time_t b = gps2glo(&t, NULL);
    gps_time_t r = glo2gps(&x, NULL);
    SPEC;
    spec_eq_u(b.n4, x.n4, "interval");
    spec_eq_u(b.nt, x.nt, "day");
    spec_eq_u(b.h, 2, "hour");
    spec_eq_u(b.m, 59, "minute");
    spec_eq_d(b.s, x.s, "second");
    spec_eq_i(r.wn, t.wn, "week");
    spec_eq_d(r.tow, t.tow, "time of week");
    spec_end();
  }
}
/* broadcast parameters that announce an event, or none, instead of the table */
static void params(int y, int m, int change) {
  SPEC;
  int d = days_to(y, m), n4 = (y - 1996) / 4 + 1, nt = d - days_to(1996 + 4 * (n4 - 1), 1) + 1;
  memset(&par, 0, sizeof par);
  ev_day = d, ev_before = 18, ev_after = 18 + change;
  long g = d * 86400l + 18;
  par.dt_ls = 18, par.dt_lsf = 18 + change;
  par.t_lse.wn = (s16)(g / 604800);
  par.t_lse.tow = (double)(g % 604800);
  par.tot = par.t_lse;
  use = &par;
  glo(n4, nt - 2, nt + 2);
  if (change) {
    spec_begin();
    double fr = spec_any_d("fraction");
    spec_assume(fr >= 0 && fr <= NOTQUITE1);
    gps_time_t t = par.t_lse;
    t.tow += fr;
    glo_time_t x = {.n4 = n4, .nt = nt, .h = 2, .m = 59, .s = 60.0 + fr};
    LIB;
    glo_time_t b = gps2glo(&t, use);
    gps_time_t r = glo2gps(&x, use);
    SPEC;
    spec_eq_u(b.n4, x.n4, "interval");
    spec_eq_u(b.nt, x.nt, "day");
    spec_eq_u(b.h, 2, "hour");
    spec_eq_u(b.m, 59, "minute");
    spec_eq_d(b.s, x.s, "second");
    spec_eq_i(r.wn, t.wn, "week");
    spec_eq_d(r.tow, t.tow, "time of week");
    spec_end();
  }
  use = 0;
}
void h_params_mid(void) { params(2028, 7, 1); }
void h_params_week(void) { params(2034, 1, 1); }
void h_params_none(void) { params(2026, 7, 0); }
/* ends of the years and of the leap day's month; 2100 is not a leap year: dates of that interval are not defined */
static void ends(int a, int b) {
  use = 0;
  for (int n = a; n < b; n++)
    {
      glo(n, n == 1 ? 2 : 1, 3);
      glo(n, 59, 62);
      glo(n, 366, 368);
      glo(n, 731, 733);
      glo(n, 1096, 1098);
      if (n != 27) glo(n, 1461, 1462);
    }
}
void h_ends0(void) { ends(1, 6); }
void h_ends1(void) { ends(6, 10); }
void h_ends2(void) { ends(10, 14); }
void h_ends3(void) { ends(14, 18); }
void h_ends4(void) { ends(18, 22); }
void h_ends5(void) { ends(22, 26); }
void h_ends6(void) { ends(26, 30); }
void h_ends7(void) { ends(30, 32); }
/* every day of a quarter of an interval */
static void q_gps(int n4, int k) {
  use = 0;
  int a = 1 + 365 * k + (n4 == 1 && k == 0), b = k == 3 ? 1462 : 366 + 365 * k;
  int step = 8;
  for (int d = a; n4 != 27 && d < b; d += step) to_gps(n4, d, d + step < b ? d + step : b);
}
static void q_glo(int n4, int k) {
  use = 0;
  to_glo(n4, 1 + 365 * k + (n4 == 1 && k == 0), k == 3 ? n4 == 27 ? 1461 : 1462 : 366 + 365 * k);
}
#define Q(n, k) \
  void h_gps##n##_##k(void) { q_gps(n, k); } \
  void h_glo##n##_##k(void) { q_glo(n, k); }
#define ALL(n) Q(n, 0) Q(n, 1) Q(n, 2) Q(n, 3)
ALL(1) ALL(2) ALL(3) ALL(4) ALL(5) ALL(6) ALL(7) ALL(8) ALL(9) ALL(10) ALL(11) ALL(12) ALL(13) ALL(14) ALL(15) ALL(16) ALL(17) ALL(18) ALL(19) ALL(20) ALL(21) ALL(22) ALL(23) ALL(24) ALL(25) ALL(26) ALL(27) ALL(28) ALL(29) ALL(30) ALL(31)

/* not a date: unknown time */
void h_bad(void) {
  SPEC;
  glo_time_t g;
  g.n4 = spec_any_u(8, "n4");
  g.nt = spec_any_u(16, "nt");
  g.h = spec_any_u(5, "h");
  g.m = spec_any_u(6, "m");
  g.s = spec_any_d("s");
  spec_assume(g.h < 24 && g.m < 60 && g.s >= 0 && g.s < 61);
  spec_assume(g.n4 < 1 || g.n4 > 31 || g.nt < 1 || g.nt > 1461);
  LIB;
  gps_time_t r = glo2gps(&g, NULL);
  SPEC;
  spec_eq_i(r.wn, -1, "unknown week");
  spec_eq_d(r.tow, -1.0, "unknown time of week");
}
