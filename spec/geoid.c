/* EGM2008 geoid offset: bicubic interpolation on the grid, bilinear next to the poles. */
#include <swiftnav/geoid_model.h>
#include "util.h"
#include "geoid_model_1_degree.inc"

#define PI_ 3.14159265358979323846

/* the grid wraps around in longitude */
static double node(int x, int y) { return GEOID[x < 0 ? x + 360 : x >= 360 ? x - 360 : x][y]; }
/* Catmull-Rom */
static double cubic(double a, double b, double c, double d, double t) {
  return b + t / 2 * (c - a + t * (2 * a - 5 * b + 4 * c - d + t * (3 * (b - c) + d - a)));
}
static double column(int x, int y, double t) { return cubic(node(x, y - 1), node(x, y), node(x, y + 1), node(x, y + 2), t); }

/* rows: which rows of cells; west: sign of the longitude */
static void geoid(int rows, int west) {
  spec_begin();
  SPEC;
  double la = spec_any_d("lat"), lo = spec_any_d("lon");
  float y = (float)(la * (180 / PI_)), x = (float)(lo * (180 / PI_));
  spec_assume(west ? x < 0 : x >= 0);
  if (west) x += 360.f;
  spec_assume(y >= -90 && y <= 90 && x >= 0 && x <= 360);
  float iyf, ixf, fy = modff(y + 90.f, &iyf), fx = modff(x, &ixf);
  int iy = (int)iyf, ix = (int)ixf;
  spec_assume(rows == 0 ? iy == 0 : rows == 1 ? iy > 0 && iy < 178 : rows == 2 ? iy == 178 : rows == 3 ? iy == 179 : iy == 180);
  LIB;
  float got = get_geoid_offset(la, lo);
  SPEC;
  if (rows == 4) {
    spec_eq_d(got, GEOID[ix][iy], "pole");
  } else if (rows == 0 || rows == 3) {
    spec_eq_d(got, (1 - fy) * ((1 - fx) * node(ix, iy) + fx * node(ix + 1, iy)) +
                       fy * ((1 - fx) * node(ix, iy + 1) + fx * node(ix + 1, iy + 1)), "bilinear");
  } else {
    spec_eq_d(got, cubic(column(ix - 1, iy, fy), column(ix, iy, fy), column(ix + 1, iy, fy), column(ix + 2, iy, fy), fx),
              "bicubic");
  }
  spec_end();
}
void h_geoid(void) {
  for (int w = 0; w < 2; w++)
    for (int r = 0; r < 5; r++) geoid(r, w);
}
/* anything else, NaN included, gives no offset and reads no table */
void h_geoid_outside(void) {
  SPEC;
  double la = spec_any_d("lat"), lo = spec_any_d("lon");
  float y = (float)(la * (180 / PI_)), x = (float)(lo * (180 / PI_));
  if (x < 0) x += 360.f;
  spec_assume(!(y >= -90 && y <= 90 && x >= 0 && x <= 360));
  LIB;
  float got = get_geoid_offset(la, lo);
  SPEC;
  spec_eq_d(got, 0, "outside the map");
}
void h_geoid_nan(void) {
  spec_nan_aware(1);
  h_geoid_outside();
}
