/* GPS - UTC offset, leap second events and conversion between GPS time and UTC. */
#include <swiftnav/gnss_time.h>
#include "spec.h"

#define W 604800.0
#define NOTQUITE1 (1.0 - 1.0 / (1ll << 40))

static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static const int MD[2][12] = {{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31},
                              {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}};

/* the dates (IERS Bulletin C) at which one second was inserted since the GPS epoch */
static const int LS[][2] = {{1981, 7}, {1982, 7}, {1983, 7}, {1985, 7}, {1988, 1}, {1990, 1}, {1991, 1}, {1992, 7}, {1993, 7},
                            {1994, 7}, {1996, 1}, {1997, 7}, {1999, 1}, {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
#define NLS 18

/* days from 6 January 1980 to the first of the month */
static int days_to(int y, int m) {
  int d = -5;
  for (int k = 1980; k < y; k++) d += leap(k) ? 366 : 365;
  for (int k = 1; k < m; k++) d += MD[leap(y)][k - 1];
  return d;
}
/* GPS second at which the inserted second number i (from 0) begins */
static double event(int i) { return days_to(LS[i][0], LS[i][1]) * 86400.0 + i; }

static gps_time_t any_time(const char *wn, const char *tow) {
  gps_time_t t;
  t.wn = (s16)spec_any_u(15, wn);
  t.tow = spec_any_d(tow);
  spec_assume(t.tow >= 0 && t.tow < W);
  return t;
}
static double tot(gps_time_t t) { return t.tow + W * t.wn; }

/* offsets from the table: every week and time of week */
void h_table(void) {
  SPEC;
  gps_time_t t = any_time("wn", "tow");
  double x = tot(t);
  double off = 0, uoff = 0;
  int ev = 0;
  for (int i = 0; i < NLS; i++) {
    double e = event(i);
    if (x >= e + 1.0) off = i + 1;
    if (x >= days_to(LS[i][0], LS[i][1]) * 86400.0) uoff = i + 1; /* x read as UTC: from midnight on */
    if (x >= e && x < e + 1.0) ev = 1;
  }
  LIB;
  double g = get_gps_utc_offset(&t, NULL);
  double u = get_utc_gps_offset(&t, NULL);
  bool l = is_leap_second_event(&t, NULL);
  SPEC;
  spec_eq_d(g, off, "GPS-UTC");
  spec_eq_d(u, -uoff, "UTC-GPS");
  spec_eq_u(l, ev, "leap second event");
}

static void any_params(utc_params_t *p) {
  memset(p, 0, sizeof *p);
  p->a0 = spec_any_d("a0");
  p->a1 = spec_any_d("a1");
  p->a2 = spec_any_d("a2");
  p->tot = any_time("tot.wn", "tot.tow");
  p->t_lse = any_time("lse.wn", "lse.tow");
  p->dt_ls = (s8)spec_any_i(8, "dt_ls");
  p->dt_lsf = (s8)spec_any_i(8, "dt_lsf");
}

/* offsets from broadcast parameters */
void h_params(void) {
  SPEC;
  gps_time_t t = any_time("wn", "tow");
  utc_params_t p;
  any_params(&p);
  spec_assume(p.t_lse.wn > 0);
  double dt = tot(t) - tot(p.tot), dl = tot(t) - tot(p.t_lse);
  double poly = p.a0 + p.a1 * dt + p.a2 * dt * dt;
  double off = poly + (dl >= 1.0 ? (double)p.dt_lsf : (double)p.dt_ls);
  double du = dt + p.dt_ls;
  double upoly = p.a0 + p.a1 * du + p.a2 * du * du;
  double uoff = upoly + (dl >= -p.dt_ls - upoly ? (double)p.dt_lsf : (double)p.dt_ls);
  int ev = p.dt_lsf > p.dt_ls && dl >= 0.0 && dl < 1.0;
  LIB;
  double g = get_gps_utc_offset(&t, &p);
  double u = get_utc_gps_offset(&t, &p);
  bool l = is_leap_second_event(&t, &p);
  SPEC;
  spec_eq_d(g, off, "GPS-UTC");
  spec_eq_d(u, -uoff, "UTC-GPS");
  spec_eq_u(l, ev, "leap second event");
}

/* parameters without a leap second week are not used */
void h_no_params(void) {
  SPEC;
  gps_time_t t = any_time("wn", "tow");
  utc_params_t p;
  any_params(&p);
  p.t_lse.wn = 0;
  spec_begin();
  LIB;
  double g = get_gps_utc_offset(&t, &p), g0 = get_gps_utc_offset(&t, NULL);
  SPEC;
  spec_eq_d(g, g0, "GPS-UTC");
  spec_end();
  spec_begin();
  LIB;
  double u = get_utc_gps_offset(&t, &p), u0 = get_utc_gps_offset(&t, NULL);
  SPEC;
  spec_eq_d(u, u0, "UTC-GPS");
  spec_end();
  spec_begin();
  LIB;
  bool l = is_leap_second_event(&t, &p), l0 = is_leap_second_event(&t, NULL);
  SPEC;
  spec_eq_u(l, l0, "event");
  spec_end();
}

/* day of the era -> date, for a few days around day0 */
static void date_of(int day0, int day, unsigned *year, unsigned *doy, unsigned *m, unsigned *d) {
  int y = 1980, b = -5;
  while (b + (leap(y) ? 366 : 365) <= day0) {
    b += leap(y) ? 366 : 365;
    y++;
  }
  *year = y;
  *doy = *m = *d = 0;
  for (int k = 0; k < 24; k++) {
    int yy = k < 12 ? y : y + 1;
    if (day >= b) {
      *year = yy;
      *m = k % 12 + 1;
      *d = day - b + 1;
    }
    b += MD[leap(yy)][k % 12];
  }
  int ys = -5;
  for (int k = 1980; k < y; k++) ys += leap(k) ? 366 : 365;
  int ye = ys + (leap(y) ? 366 : 365);
  *doy = (day >= ye ? day - ye : day - ys) + 1;
}

/* from UTC (as structure, date or MJD) back to the GPS time */
static void back(const gps_time_t *t, const utc_tm *u, int n, unsigned y, unsigned m, unsigned d) {
  unsigned sh = spec_any_u(5, "h"), smi = spec_any_u(6, "mi"), sse = spec_any_u(6, "s");
  double fr = u->second_frac;
  gps_time_t g;
  LIB;
  utc2gps(u, &g, NULL);
  SPEC;
  spec_eq_i(g.wn, t->wn, "UTC to GPS week");
  spec_eq_d(g.tow, t->tow, "UTC to GPS time of week");
  LIB;
  double mj = gps2mjd(t);
  SPEC;
  spec_assume(sh < 24);
  spec_assume(smi < 60);
  spec_assume(sse < 60);
  spec_eq_d(mj, 44244 + n + u->hour / 24.0 + u->minute / 1440.0 + ((double)u->second_int + fr) / 86400.0, "GPS to MJD");
  s32 dy = 0, dm = 0, dd = 0, dh = 0, dmi = 0;
  double ds = 0;
  LIB;
  gps2date(t, &dy, &dm, &dd, &dh, &dmi, &ds);
  SPEC;
  spec_eq_i(dy, y, "GPS to date: year");
  spec_eq_i(dm, m, "GPS to date: month");
  spec_eq_i(dd, d, "GPS to date: day");
  spec_eq_i(dh, u->hour, "GPS to date: hour");
  spec_eq_i(dmi, u->minute, "GPS to date: minute");
  spec_eq_d(ds, (double)u->second_int + fr, "GPS to date: second");
  /* from any time of day n */
  int k = 0;
  for (int i = 0; i < NLS; i++)
    if (n >= days_to(LS[i][0], LS[i][1])) k = i + 1;
  double sow = (double)(n % 7 * 86400 + (int)sh * 3600 + (int)smi * 60 + (int)sse + k) + fr;
  int wn = n / 7;
  if (sow >= 604800.0) {
    sow -= 604800.0;
    wn++;
  }
  LIB;
  gps_time_t a = mjd2gps(44244 + n + sh / 24.0 + smi / 1440.0 + ((double)sse + fr) / 86400.0);
  gps_time_t b = date2gps(y, m, d, sh, smi, (double)sse + fr);
  SPEC;
  spec_eq_i(a.wn, wn, "MJD to GPS week");
  spec_eq_d(a.tow, sow, "MJD to GPS time of week");
  spec_eq_i(b.wn, wn, "date to GPS week");
  spec_eq_d(b.tow, sow, "date to GPS time of week");
}

/* every instant of UTC day n (from the GPS epoch) outside inserted seconds */
static void one_day(int n) {
  unsigned sod = spec_any_u(17, "second of day");
  double fr = spec_any_d("fraction");
  spec_assume(sod < 86400);
  spec_assume(fr >= 0 && fr <= NOTQUITE1);
  int k = 0;
  for (int i = 0; i < NLS; i++)
    if (n >= days_to(LS[i][0], LS[i][1])) k = i + 1;
  gps_time_t t;
  t.wn = (s16)(n / 7);
  unsigned s = n % 7 * 86400 + sod + k;
  if (s >= 604800) {
    t.wn++;
    s -= 604800;
  }
  t.tow = (double)s + fr;
  unsigned y, doy, m, d;
  date_of(n, n, &y, &doy, &m, &d);
  utc_tm u;
  memset(&u, 0, sizeof u);
  LIB;
  gps2utc(&t, &u, NULL);
  SPEC;
  spec_eq_u(u.year, y, "year");
  spec_eq_u(u.month, m, "month");
  spec_eq_u(u.month_day, d, "day of month");
  spec_eq_u(u.year_day, doy, "day of year");
  spec_eq_u(u.week_day, (unsigned)(n + 6) % 7 + 1, "day of week");
  spec_eq_u(u.hour, sod / 3600, "hour");
  spec_eq_u(u.minute, sod / 60 % 60, "minute");
  spec_eq_u(u.second_int, sod % 60, "second");
  spec_eq_d(u.second_frac, fr, "fraction");
  LIB;
  unsigned dy = gps2doy(&t);
  SPEC;
  spec_eq_u(dy, doy - 1, "day of year from 0");
  back(&t, &u, n, y, m, d);
}

static void days(int a, int b) {
  SPEC;
  for (int n = a; n < b; n++) {
    spec_begin();
    one_day(n);
    spec_end();
  }
}
/* the days around every change of the offset, month lengths and year ends */
static void around(int a, int b) {
  for (int i = a; i < b; i++) {
    int n = days_to(LS[i][0], LS[i][1]);
    days(n - 2, n + 2);
  }
}
void h_days0(void) { around(0, 6); }
void h_days1(void) { around(6, 12); }
void h_days2(void) { around(12, 18); }
/* the days around month and year ends */
static void ends(int a, int b) {
  for (int y = a; y < b; y++) {
    int n = days_to(y, 1), f = days_to(y, 3);
    days(n < 2 ? 0 : n - 2, n + 2);
    days(f - 2, f + 1);
  }
}
void h_ends0(void) { ends(1980, 1994); }
void h_ends1(void) { ends(1994, 2008); }
void h_ends2(void) { ends(2008, 2022); }
void h_ends3(void) { ends(2022, 2036); }

void h_all0(void) { days(0, 365); }
void h_all1(void) { days(365, 730); }
void h_all2(void) { days(730, 1095); }
void h_all3(void) { days(1095, 1460); }
void h_all4(void) { days(1460, 1825); }
void h_all5(void) { days(1825, 2190); }
void h_all6(void) { days(2190, 2555); }
void h_all7(void) { days(2555, 2920); }
void h_all8(void) { days(2920, 3285); }
void h_all9(void) { days(3285, 3650); }
void h_all10(void) { days(3650, 4015); }
void h_all11(void) { days(4015, 4380); }
void h_all12(void) { days(4380, 4745); }
void h_all13(void) { days(4745, 5110); }
void h_all14(void) { days(5110, 5475); }
void h_all15(void) { days(5475, 5840); }
void h_all16(void) { days(5840, 6205); }
void h_all17(void) { days(6205, 6570); }
void h_all18(void) { days(6570, 6935); }
void h_all19(void) { days(6935, 7300); }
void h_all20(void) { days(7300, 7665); }
void h_all21(void) { days(7665, 8030); }
void h_all22(void) { days(8030, 8395); }
void h_all23(void) { days(8395, 8760); }
void h_all24(void) { days(8760, 9125); }
void h_all25(void) { days(9125, 9490); }
void h_all26(void) { days(9490, 9855); }
void h_all27(void) { days(9855, 10220); }
void h_all28(void) { days(10220, 10585); }
void h_all29(void) { days(10585, 10950); }
void h_all30(void) { days(10950, 11315); }
void h_all31(void) { days(11315, 11680); }
void h_all32(void) { days(11680, 12045); }
void h_all33(void) { days(12045, 12410); }
void h_all34(void) { days(12410, 12775); }
void h_all35(void) { days(12775, 13140); }
void h_all36(void) { days(13140, 13505); }
void h_all37(void) { days(13505, 13870); }
void h_all38(void) { days(13870, 14235); }
void h_all39(void) { days(14235, 14600); }
void h_all40(void) { days(14600, 14965); }
void h_all41(void) { days(14965, 15330); }
void h_all42(void) { days(15330, 15695); }
void h_all43(void) { days(15695, 16060); }
void h_all44(void) { days(16060, 16425); }
void h_all45(void) { days(16425, 16790); }
void h_all46(void) { days(16790, 17155); }
void h_all47(void) { days(17155, 17520); }
void h_all48(void) { days(17520, 17885); }
void h_all49(void) { days(17885, 18250); }
void h_all50(void) { days(18250, 18615); }
void h_all51(void) { days(18615, 18980); }
void h_all52(void) { days(18980, 19345); }
void h_all53(void) { days(19345, 19710); }
void h_all54(void) { days(19710, 20075); }
void h_all55(void) { days(20075, 20440); }
void h_all56(void) { days(20440, 20805); }
void h_all57(void) { days(20805, 21170); }
void h_all58(void) { days(21170, 21535); }
void h_all59(void) { days(21535, 21900); }
/* the inserted seconds themselves read 23:59:60 of the day before */
void h_event(void) {
  SPEC;
  for (int i = 0; i < NLS; i++) {
    spec_begin();
    double fr = spec_any_d("fraction");
    spec_assume(fr >= 0 && fr <= NOTQUITE1);
    int day = days_to(LS[i][0], LS[i][1]) - 1;
    long g = (day + 1) * 86400l + i;
    gps_time_t t;
    t.wn = (s16)(g / 604800);
    t.tow = (double)(g % 604800) + fr;
    utc_tm u;
    memset(&u, 0, sizeof u);
    LIB;
    gps2utc(&t, &u, NULL);
    SPEC;
    int jul = LS[i][1] == 7;
    spec_eq_u(u.year, jul ? LS[i][0] : LS[i][0] - 1, "year");
    spec_eq_u(u.month, jul ? 6 : 12, "month");
    spec_eq_u(u.month_day, jul ? 30 : 31, "day of month");
    spec_eq_u(u.hour, 23, "hour");
    spec_eq_u(u.minute, 59, "minute");
    spec_eq_u(u.second_int, 60, "second");
    spec_eq_d(u.second_frac, fr, "fraction");
    gps_time_t r;
    LIB;
    utc2gps(&u, &r, NULL);
    SPEC;
    spec_eq_i(r.wn, t.wn, "UTC to GPS week");
    spec_eq_d(r.tow, t.tow, "UTC to GPS time of week");
    spec_end();
  }
}

/* Unix time: leap seconds are removed on the way out, none on the way in */
void h_unix_out(void) {
  for (int i = 0; i <= NLS; i++) {
    spec_begin();
    SPEC;
    gps_time_t t = any_time("wn", "tow");
    double x = tot(t);
    if (i > 0) spec_assume(x >= event(i - 1) + 1.0);
    if (i < NLS) spec_assume(x < event(i) + 1.0);
    LIB;
    time_t u = gps2time(&t);
    SPEC;
    spec_eq_i(u, 315964800l - i + 604800l * t.wn + (s32)t.tow, "Unix time");
    spec_end();
  }
}
void h_unix_in(void) {
  SPEC;
  unsigned wn = spec_any_u(15, "wn"), s = spec_any_u(20, "s");
  spec_assume(s < 604800);
  time_t u = 315964800l + 604800l * wn + s;
  spec_assume(wn > 1876);
  LIB;
  gps_time_t t = time2gps_t(u);
  SPEC;
  spec_eq_i(t.wn, wn, "week");
  spec_eq_d(t.tow, (double)s, "time of week");
}
