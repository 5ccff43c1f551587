/* Greenwich mean sidereal time (IAU 1982): the polynomial in Julian centuries of UT1 at 0 h UT1 of the day, advanced by the sidereal rate. */
#include <swiftnav/gnss_time.h>
#include "spec.h"

/* mjd: the day, y m d: its date.  side: UT1 falls on the day before (-1), the day (0), the day after (1) */
static void one(int mjd, int y, int m, int d, int side, unsigned h, unsigned mi, unsigned se) {
  SPEC;
  spec_begin();
  utc_tm u;
  spec_fill(&u, sizeof u, "utc");
  double fr = spec_any_d("fraction"), dt = spec_any_d("ut1 minus utc");
  if (h == 0) fr = 0;
  else if (h == 23) fr = 0.5; /* next to midnight: UT1 may be in the neighbouring day */
  else spec_assume(fr >= 0 && fr < 1);
  spec_assume(dt >= -0.9 && dt <= 0.9);
  u.year = y, u.month = m, u.month_day = d, u.hour = h, u.minute = mi, u.second_int = se, u.second_frac = fr;
  double s = (double)(h * 3600 + mi * 60 + se) + fr + dt;
  if (side < 0) spec_assume(dt < 0);
  if (h == 0 && !side) spec_assume(dt >= 0);
  if (h == 23 && !side) spec_assume(dt < 0.5);
  if (side > 0) spec_assume(dt >= 0.5);
  double ut = s - side * 86400.0, t = (mjd + side - 51544.5) / 36525.0;
  double g = 24110.54841 + 8640184.812866 * t + 0.093104 * t * t - 6.2e-6 * t * t * t + 1.002737909350795 * ut;
  LIB;
  double r = utc2gmst(u, dt);
  SPEC;
  double turns = g / 86400, pi = 3.14159265358979323846;
  double w = (turns - trunc(turns)) * 2 * pi;
  if (w < 0) w += 2 * pi;
  spec_eq_d(r, w, "sidereal time in [0, 2 pi)");
  spec_end();
}
/* the same for given offsets: constants fold, so that this needs no case splits whatever the day arithmetic does */
void h_given(void) {
  static const double off[] = {-0.75, -0.25, 0, 0.375, 0.875};
  for (int i = 0; i < 5; i++) {
    SPEC;
    utc_tm u;
    spec_fill(&u, sizeof u, "utc");
    u.year = 2024, u.month = 2, u.month_day = 29, u.hour = 13, u.minute = 10 + i, u.second_int = 7, u.second_frac = 0.5;
    double ut = 13 * 3600 + (10 + i) * 60 + 7.5 + off[i], t = (60369 - 51544.5) / 36525.0;
    double g = 24110.54841 + 8640184.812866 * t + 0.093104 * t * t - 6.2e-6 * t * t * t + 1.002737909350795 * ut;
    LIB;
    double r = utc2gmst(u, off[i]);
    SPEC;
    double turns = g / 86400, w = (turns - trunc(turns)) * 2 * 3.14159265358979323846;
    spec_eq_d(r, w < 0 ? w + 2 * 3.14159265358979323846 : w, "sidereal time of a given instant");
  }
}
static void days(const int (*t)[4], int n) {
  SPEC;
  for (int i = 0; i < n; i++)
    for (int k = 0; k < 7; k++) one(t[i][0], t[i][1], t[i][2], t[i][3], k == 0 ? -1 : k == 6, k < 2 ? 0 : k < 5 ? 5 + 4 * k : 23, k < 2 ? 0 : k < 5 ? 7 + k : 59, k < 2 ? 0 : k < 5 ? 13 : 59);
}
void h_day(void) {
  static const int t[][4] = {{60310, 2024, 1, 1}, {60369, 2024, 2, 29}, {60371, 2024, 3, 2}};
  days(t, 3);
}
void h_late(void) {
  static const int t[][4] = {{51544, 2000, 1, 1}, {58848, 2019, 12, 31}, {72866, 2058, 5, 18}};
  days(t, 3);
}
void h_early(void) {
  static const int t[][4] = {{48347, 1991, 4, 1}, {50814, 1998, 1, 1}};
  days(t, 2);
}
void h_eighties(void) {
  static const int t[][4] = {{46431, 1986, 1, 1}, {51178, 1998, 12, 31}};
  days(t, 2);
}
