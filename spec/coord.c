/* WGS84 coordinates: geodetic, Earth fixed, local north-east-down, azimuth and elevation. */
#include <swiftnav/coord_system.h>
#include "util.h"

#define PI_ 3.14159265358979323846
static const double a_ = 6378137.0, f_ = 1 / 298.257223563;

static void any3(double v[3], const char *n) {
  for (int i = 0; i < 3; i++) v[i] = spec_any_d(n);
}

void h_degrees(void) {
  SPEC;
  double v[3], r[3], d[3], b[3];
  any3(v, "llh");
  LIB;
  llhrad2deg(v, d);
  llhdeg2rad(v, r);
  llhdeg2rad(d, b);
  SPEC;
  for (int i = 0; i < 2; i++) {
    spec_eq_d(d[i], v[i] * 180 / PI_, "degrees");
    spec_eq_d(r[i], v[i] * PI_ / 180, "radians");
    spec_eq_d(b[i], v[i], "there and back");
  }
  spec_eq_d(d[2], v[2], "height");
  spec_eq_d(r[2], v[2], "height");
  LIB;
  llhrad2deg(v, v);
  SPEC;
  for (int i = 0; i < 3; i++) spec_eq_d(v[i], d[i], "in place");
}

void h_ecef(void) {
  SPEC;
  double l[3], x[3];
  any3(l, "llh");
  LIB;
  wgsllh2ecef(l, x);
  SPEC;
  double e2 = f_ * (2 - f_), n = a_ / sqrt(1 - e2 * sin(l[0]) * sin(l[0]));
  spec_eq_d(x[0], (n + l[2]) * cos(l[0]) * cos(l[1]), "x");
  spec_eq_d(x[1], (n + l[2]) * cos(l[0]) * sin(l[1]), "y");
  spec_eq_d(x[2], (n * (1 - e2) + l[2]) * sin(l[0]), "z");
}

static void ned_rows(double lat, double lon, double m[3][3]) {
  double n[3] = {-sin(lat) * cos(lon), -sin(lat) * sin(lon), cos(lat)}, e[3] = {-sin(lon), cos(lon), 0},
         u[3] = {cos(lat) * cos(lon), cos(lat) * sin(lon), sin(lat)};
  for (int i = 0; i < 3; i++) m[0][i] = n[i], m[1][i] = e[i], m[2][i] = -u[i];
}
/* what the geodetic conversion of the reference point gives */
static double at[3], at_llh[3];
void stub_ecef2llh(const double ecef[3], double llh[3]) {
  SPEC;
  for (int i = 0; i < 3; i++) {
    spec_eq_d(ecef[i], at[i], "the local frame is the one of the reference point");
    llh[i] = at_llh[i];
  }
  LIB;
}
void h_ned(void) {
  SPEC;
  double p[3], r[3], m[3][3], k[3][3], q[3], o[3];
  any3(p, "p"), any3(r, "ref"), any3(at_llh, "llh");
  for (int i = 0; i < 3; i++) at[i] = r[i];
  ned_rows(at_llh[0], at_llh[1], m);
  LIB;
  wgs_ecef2ned_matrix(at_llh, k);
  SPEC;
  for (int i = 0; i < 9; i++) spec_eq_d(k[i / 3][i % 3], m[i / 3][i % 3], "matrix at a geodetic position");
  LIB;
  ecef2ned_matrix(r, k);
  SPEC;
  for (int i = 0; i < 9; i++) spec_eq_d(k[i / 3][i % 3], m[i / 3][i % 3], "matrix at a point");
  LIB;
  wgsecef2ned(p, r, q);
  SPEC;
  for (int i = 0; i < 3; i++) spec_eq_d(q[i], m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2], "to local");
  LIB;
  wgsned2ecef(p, r, q);
  SPEC;
  for (int i = 0; i < 3; i++) spec_eq_d(q[i], m[0][i] * p[0] + m[1][i] * p[1] + m[2][i] * p[2], "from local");
  LIB;
  wgsecef2ned_d(p, r, q);
  SPEC;
  for (int i = 0; i < 3; i++)
    spec_eq_d(q[i], m[i][0] * (p[0] - r[0]) + m[i][1] * (p[1] - r[1]) + m[i][2] * (p[2] - r[2]), "point to local");
  LIB;
  wgsned2ecef_d(p, r, o);
  SPEC;
  for (int i = 0; i < 3; i++) spec_eq_d(o[i], r[i] + m[0][i] * p[0] + m[1][i] * p[1] + m[2][i] * p[2], "point from local");
}
void h_azel(void) {
  SPEC;
  double p[3], r[3], m[3][3], v[3], az, el;
  any3(p, "p"), any3(r, "ref"), any3(at_llh, "llh");
  for (int i = 0; i < 3; i++) at[i] = r[i];
  ned_rows(at_llh[0], at_llh[1], m);
  LIB;
  wgsecef2azel(p, r, &az, &el);
  SPEC;
  for (int i = 0; i < 3; i++) v[i] = m[i][0] * (p[0] - r[0]) + m[i][1] * (p[1] - r[1]) + m[i][2] * (p[2] - r[2]);
  double a = atan2(v[1], v[0]);
  if (a < 0) a += 2 * PI_;
  spec_eq_d(az, a, "azimuth, clockwise from north in [0, 2 pi)");
  spec_eq_d(el, asin(-v[2] / sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])), "elevation");
}
/* Fukushima's iteration on the tangent S/C of the reduced latitude */
void h_llh(void) {
  SPEC;
  double x[3], l[3], w[3];
  any3(x, "ecef");
  LIB;
  wgsecef2llh(x, l);
  SPEC;
  double e = sqrt(f_ * (2 - f_)), ec = sqrt(1 - e * e), p = sqrt(x[0] * x[0] + x[1] * x[1]), az = fabs(x[2]);
  if (p > 1e-11) spec_eq_d(l[1], atan2(x[1], x[0]), "longitude");
  if (p == 0) spec_eq_d(l[1], 0, "longitude on the axis");
  if (p < a_ * 1e-16) {
    w[0] = copysign(PI_ / 2, x[2]);
    w[2] = az - a_ * (1 - f_);
  } else {
    double P = p / a_, Z = az * ec / a_, S = Z, C = ec * P, ps = -1, pc = -1, A;
    for (int i = 0; i < 10; i++) {
      A = sqrt(S * S + C * C);
      double D = Z * A * A * A + e * e * S * S * S, F = P * A * A * A - e * e * C * C * C,
             B = 1.5 * e * S * C * C * (A * (P * S - Z * C) - e * S * C);
      S = D * F - B * S;
      C = F * F - B * C;
      if (S > C) {
        C = C / S;
        S = 1;
      } else {
        S = S / C;
        C = 1;
      }
      if (fabs(S - ps) < 1e-16 && fabs(C - pc) < 1e-16) break;
      ps = S;
      pc = C;
    }
    A = sqrt(S * S + C * C);
    w[0] = copysign(1, x[2]) * atan(S / (ec * C));
    w[2] = (p * ec * C + az * S - a_ * ec * A) / sqrt(ec * ec * C * C + S * S);
  }
  spec_eq_d(l[0], w[0], "latitude");
  spec_eq_d(l[2], w[2], "height");
}
