/* Calendar dates and times of day. */
#include <swiftnav/gnss_time.h>
#include "spec.h"

#define NOTQUITE1 (1.0 - 1.0 / (1ll << 40))

static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }

/* Gregorian date of a day counted from 6 January 1980, by counting years and months off */
static const int MD[2][12] = {{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31},
                              {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}};

/* off days after 1 January of y0 (less than five years) */
static void greg(unsigned y0, unsigned off, unsigned *year, unsigned *doy, unsigned *month, unsigned *mday) {
  unsigned base = 0, ny = y0, nd = off;
  for (unsigned yr = y0; yr < y0 + 5; yr++) {
    if (off >= base) {
      ny = yr;
      nd = off - base;
    }
    base += leap(yr) ? 366 : 365;
  }
  *year = ny;
  *doy = nd + 1;
  int lp = leap(ny);
  unsigned b[2] = {0, 0};
  unsigned m = 0, d = 0;
  for (int k = 0; k < 12; k++) {
    unsigned f = lp ? b[1] : b[0];
    if (nd >= f) {
      m = k + 1;
      d = nd - f + 1;
    }
    b[0] += MD[0][k];
    b[1] += MD[1][k];
  }
  *month = m;
  *mday = d;
}

/* every week number and time of week, one four-year block at a time */
static void make(unsigned y0, int base) {
  unsigned off = spec_any_u(11, "day in block");
  unsigned sod = spec_any_u(17, "second of day");
  double fr = spec_any_d("fraction");
  spec_assume(off < 1461);
  spec_assume(sod < 86400);
  spec_assume(fr >= 0 && fr <= NOTQUITE1);
  if (base < 0) spec_assume(off >= (unsigned)-base);
  unsigned day = base + off;
  spec_assume(day < 7u * 32768);
  gps_time_t t;
  t.wn = (s16)(day / 7);
  t.tow = (double)(day % 7 * 86400 + sod) + fr;
  utc_tm u;
  memset(&u, 0, sizeof u);
  LIB;
  make_utc_tm(&t, &u);
  SPEC;
  unsigned y, doy, m, d;
  greg(y0, off, &y, &doy, &m, &d);
  spec_eq_u(u.hour, sod / 3600, "hour");
  spec_eq_u(u.minute, sod / 60 % 60, "minute");
  spec_eq_u(u.second_int, sod % 60, "second");
  spec_eq_d(u.second_frac, fr, "fraction of the second");
  spec_eq_u(u.week_day, (day + 6) % 7 + 1, "day of week");
  spec_eq_u(u.year, y, "year");
  spec_eq_u(u.year_day, doy, "day of year");
  spec_eq_u(u.month, m, "month");
  spec_eq_u(u.month_day, d, "day of month");
}


/* Modified Julian Date of a calendar date and time, and back; one four-year block at a time.
 * mjd0: MJD of 1 January of y0 */
static void mjd(unsigned y0, int mjd0) {
  unsigned off = spec_any_u(11, "day in block");
  unsigned h = spec_any_u(5, "hour"), mi = spec_any_u(6, "minute"), se = spec_any_u(6, "second");
  double fr = spec_any_d("fraction");
  spec_assume(off < 1461);
  spec_assume(h < 24 && mi < 60 && se < 60);
  spec_assume(fr >= 0 && fr <= NOTQUITE1);
  unsigned y, doy, m, d;
  greg(y0, off, &y, &doy, &m, &d);
  double want = (double)(mjd0 + (int)off) + (double)h / 24.0 + (double)mi / 1440.0 + ((double)se + fr) / 86400.0;
  LIB;
  double got = date2mjd(y, m, d, h, mi, (double)se + fr);
  SPEC;
  spec_eq_d(got, want, "date to MJD");
  s32 ry = 0, rm = 0, rd = 0, rh = 0, rmi = 0;
  double rs = 0;
  LIB;
  mjd2date(want, &ry, &rm, &rd, &rh, &rmi, &rs);
  SPEC;
  spec_eq_i(ry, y, "MJD to year");
  spec_eq_i(rm, m, "MJD to month");
  spec_eq_i(rd, d, "MJD to day");
  spec_eq_i(rh, h, "MJD to hour");
  spec_eq_i(rmi, mi, "MJD to minute");
  spec_eq_d(rs, (double)se + fr, "MJD to second");
}

static void utc(unsigned y0, int mjd0) {
  unsigned off = spec_any_u(11, "day in block");
  unsigned h = spec_any_u(5, "hour"), mi = spec_any_u(6, "minute"), se = spec_any_u(6, "second");
  double fr = spec_any_d("fraction");
  spec_assume(off < 1461);
  spec_assume(h < 24 && mi < 60 && se < 60);
  spec_assume(fr >= 0 && fr <= NOTQUITE1);
  unsigned y, doy, m, d;
  greg(y0, off, &y, &doy, &m, &d);
  double date = (double)(mjd0 + (int)off) + (double)h / 24.0 + (double)mi / 1440.0 + ((double)se + fr) / 86400.0;
  utc_tm u, v;
  memset(&u, 0, sizeof u);
  LIB;
  u = mjd2utc(date);
  SPEC;
  spec_eq_u(u.hour, h, "hour");
  spec_eq_u(u.minute, mi, "minute");
  spec_eq_u(u.second_int, se, "second");
  spec_eq_d(u.second_frac, fr, "fraction of the second");
  spec_eq_u(u.year, y, "year");
  spec_eq_u(u.year_day, doy, "day of year");
  spec_eq_u(u.month, m, "month");
  spec_eq_u(u.month_day, d, "day of month");
  spec_eq_u(u.week_day, (mjd0 + off + 2) % 7 + 1, "day of week");
  LIB;
  double got = utc2mjd(&u);
  SPEC;
  spec_eq_d(got, date, "UTC to MJD");
}

/* a UTC date and time of day as the broken down time of that date */
static void date(unsigned y0, int mjd0) {
  unsigned off = spec_any_u(11, "day in block");
  unsigned h = spec_any_u(5, "hour"), mi = spec_any_u(6, "minute"), se = spec_any_u(6, "second");
  double fr = spec_any_d("fraction");
  spec_assume(off < 1461);
  spec_assume(h < 24 && mi < 60 && se < 60);
  spec_assume(fr >= 0 && fr <= NOTQUITE1);
  unsigned y, doy, m, d;
  greg(y0, off, &y, &doy, &m, &d);
  LIB;
  utc_tm u = date2utc(y, m, d, h, mi, (double)se + fr);
  SPEC;
  spec_eq_u(u.hour, h, "hour"), spec_eq_u(u.minute, mi, "minute"), spec_eq_u(u.second_int, se, "second");
  spec_eq_d(u.second_frac, fr, "fraction of the second");
  spec_eq_u(u.year, y, "year"), spec_eq_u(u.year_day, doy, "day of year"), spec_eq_u(u.month, m, "month"), spec_eq_u(u.month_day, d, "day of month");
  spec_eq_u(u.week_day, (mjd0 + off + 2) % 7 + 1, "day of week");
}

static void blocks(unsigned a, unsigned b, void (*f)(unsigned, int), int base) {
  SPEC;
  /* base: 1 January 1980 */
  for (unsigned y = 1980; y < b; y += 4) {
    if (y >= a) {
      spec_begin();
      f(y, base);
      spec_end();
    }
    for (unsigned k = 0; k < 4; k++) base += leap(y + k) ? 366 : 365;
  }
}

#define MAKE(n, a, b) void h_make##n(void) { blocks(a, b, make, -5); }
MAKE(0, 1980, 2008)
MAKE(1, 2008, 2032)
MAKE(2, 2032, 2064)
MAKE(3, 2064, 2096)
MAKE(4, 2096, 2128)
MAKE(5, 2128, 2160)
MAKE(6, 2160, 2192)
MAKE(7, 2192, 2224)
MAKE(8, 2224, 2256)
MAKE(9, 2256, 2288)
MAKE(10, 2288, 2320)
MAKE(11, 2320, 2352)
MAKE(12, 2352, 2384)
MAKE(13, 2384, 2416)
MAKE(14, 2416, 2448)
MAKE(15, 2448, 2480)
MAKE(16, 2480, 2512)
MAKE(17, 2512, 2544)
MAKE(18, 2544, 2576)
MAKE(19, 2576, 2608)

#define MJD(n, a, b) void h_mjd##n(void) { blocks(a, b, mjd, 44239); }
#define UTC(n, a, b) void h_utc##n(void) { blocks(a, b, utc, 44239); }
MJD(0, 1980, 1996)
MJD(1, 1996, 2012)
MJD(2, 2012, 2028)
MJD(3, 2028, 2044)
MJD(4, 2044, 2060)
MJD(5, 2060, 2076)
MJD(6, 2076, 2092)
MJD(7, 2092, 2108)
MJD(8, 2108, 2124)
MJD(9, 2124, 2140)
MJD(10, 2140, 2156)
MJD(11, 2156, 2172)
MJD(12, 2172, 2188)
MJD(13, 2188, 2204)
MJD(14, 2204, 2220)
MJD(15, 2220, 2236)
MJD(16, 2236, 2252)
MJD(17, 2252, 2268)
MJD(18, 2268, 2284)
MJD(19, 2284, 2300)
MJD(20, 2300, 2316)
MJD(21, 2316, 2332)
MJD(22, 2332, 2348)
MJD(23, 2348, 2364)
MJD(24, 2364, 2380)
MJD(25, 2380, 2396)
MJD(26, 2396, 2412)
MJD(27, 2412, 2428)
MJD(28, 2428, 2444)
MJD(29, 2444, 2460)
MJD(30, 2460, 2476)
MJD(31, 2476, 2492)
MJD(32, 2492, 2508)
MJD(33, 2508, 2524)
MJD(34, 2524, 2540)
MJD(35, 2540, 2556)
MJD(36, 2556, 2572)
MJD(37, 2572, 2588)
MJD(38, 2588, 2604)
MJD(39, 2604, 2608)
UTC(0, 1984, 1988)
UTC(1, 1988, 1996)
UTC(2, 1996, 2004)
UTC(3, 2004, 2012)
UTC(4, 2012, 2020)
UTC(5, 2020, 2028)
UTC(6, 2028, 2036)
UTC(7, 2036, 2044)
UTC(8, 2044, 2052)
UTC(9, 2052, 2060)
UTC(10, 2060, 2068)
UTC(11, 2068, 2076)
UTC(12, 2076, 2084)
UTC(13, 2084, 2092)
UTC(14, 2092, 2100)
UTC(15, 2100, 2108)
UTC(16, 2108, 2116)
UTC(17, 2116, 2124)
UTC(18, 2124, 2132)
UTC(19, 2132, 2140)
UTC(20, 2140, 2148)
UTC(21, 2148, 2156)
UTC(22, 2156, 2164)
UTC(23, 2164, 2172)
UTC(24, 2172, 2180)
UTC(25, 2180, 2188)
UTC(26, 2188, 2196)
UTC(27, 2196, 2204)
UTC(28, 2204, 2212)
UTC(29, 2212, 2220)
UTC(30, 2220, 2228)
UTC(31, 2228, 2236)
UTC(32, 2236, 2244)
UTC(33, 2244, 2252)
UTC(34, 2252, 2260)
UTC(35, 2260, 2268)
UTC(36, 2268, 2276)
UTC(37, 2276, 2284)
UTC(38, 2284, 2292)
UTC(39, 2292, 2300)
UTC(40, 2300, 2308)
UTC(41, 2308, 2316)
UTC(42, 2316, 2324)
UTC(43, 2324, 2332)
UTC(44, 2332, 2340)
UTC(45, 2340, 2348)
UTC(46, 2348, 2356)
UTC(47, 2356, 2364)
UTC(48, 2364, 2372)
UTC(49, 2372, 2380)
UTC(50, 2380, 2388)
UTC(51, 2388, 2396)
UTC(52, 2396, 2404)
UTC(53, 2404, 2412)
UTC(54, 2412, 2420)
UTC(55, 2420, 2428)
UTC(56, 2428, 2436)
UTC(57, 2436, 2444)
UTC(58, 2444, 2452)
UTC(59, 2452, 2460)
UTC(60, 2460, 2468)
UTC(61, 2468, 2476)
UTC(62, 2476, 2484)
UTC(63, 2484, 2492)
UTC(64, 2492, 2500)
UTC(65, 2500, 2508)
UTC(66, 2508, 2516)
UTC(67, 2516, 2524)
UTC(68, 2524, 2532)
UTC(69, 2532, 2540)
UTC(70, 2540, 2548)
UTC(71, 2548, 2556)
UTC(72, 2556, 2564)
UTC(73, 2564, 2572)
UTC(74, 2572, 2580)
UTC(75, 2580, 2588)
UTC(76, 2588, 2596)
UTC(77, 2596, 2604)
UTC(78, 2604, 2608)

void h_days(void) {
  SPEC;
  unsigned y = spec_any_u(16, "year"), m = spec_any_u(4, "month");
  spec_assume(m >= 1 && m <= 12);
  LIB;
  u8 n = days_in_month(y, m);
  bool l = is_leap_year(y);
  SPEC;
  spec_eq_u(l, leap(y), "leap year");
  spec_eq_u(n, MD[leap(y)][m - 1], "days in month");
}
#define DATE(n, a, b) void h_date##n(void) { blocks(a, b, date, 44239); }
DATE(0, 1984, 1988)
DATE(1, 2020, 2024)
DATE(2, 2096, 2100)
DATE(3, 2100, 2104)
