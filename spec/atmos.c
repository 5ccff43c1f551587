/* Klobuchar ionosphere (IS-GPS-200 Figure 20-4) and UNB3m troposphere (UNB report 2006). */
#include <swiftnav/ionosphere.h>
#include <swiftnav/troposphere.h>
#include "util.h"

#define PI_ 3.14159265358979323846

void h_klobuchar(void) {
  SPEC;
  ionosphere_t p;
  gps_time_t t;
  spec_fill(&p, sizeof p, "p");
  double *c[] = {&p.a0, &p.a1, &p.a2, &p.a3, &p.b0, &p.b1, &p.b2, &p.b3};
  for (int i = 0; i < 8; i++) *c[i] = spec_any_d("coefficient");
  t.wn = spec_any_i(16, "wn");
  t.tow = spec_any_d("tow");
  double lat = spec_any_d("lat"), lon = spec_any_d("lon"), az = spec_any_d("az"), el = spec_any_d("el");
  LIB;
  double got = calc_ionosphere(&t, lat, lon, az, el, &p);
  SPEC;
  double e = el / PI_;
  double psi = 0.0137 / (e + 0.11) - 0.022;
  double phi = lat / PI_ + psi * cos(az);
  phi = phi > 0.416 ? 0.416 : phi < -0.416 ? -0.416 : phi;
  double lam = lon / PI_ + psi * sin(az) / cos(phi * PI_);
  double phim = phi + 0.064 * cos((lam - 1.617) * PI_);
  double s = fmod(4.32e4 * lam + t.tow, 86400.0);
  if (s < 0) s += 86400.0;
  double per = p.b0 + p.b1 * phim + p.b2 * phim * phim + p.b3 * phim * phim * phim;
  if (per < 72000) per = 72000;
  double amp = p.a0 + p.a1 * phim + p.a2 * phim * phim + p.a3 * phim * phim * phim;
  if (amp < 0) amp = 0;
  double x = 2 * PI_ * (s - 50400) / per;
  double k = 0.53 - e, f = 1.0 + 16.0 * k * k * k;
  double d = fabs(x) < 1.57 ? 5.0e-9 + amp * (1 - x * x / 2 + x * x * x * x / 24) : 5.0e-9;
  spec_eq_d(got, f * d * 299792458.0, "delay");
}

/* UNB3m tables at 15, 30, 45, 60, 75 degrees: mean and seasonal amplitude */
typedef struct {
  double avg[5], amp[5];
} tab;
static double interp(const double v[5], double alat) {
  if (alat <= 15) return v[0];
  if (alat >= 75) return v[4];
  for (int i = 1; i < 5; i++)
    if (alat < 15.0 * (i + 1)) return v[i - 1] + (v[i] - v[i - 1]) * (alat - 15.0 * i) / 15;
  return v[4];
}
static double param(const tab *t, double al, double season, const char *name) {
  return spec_cut(interp(t->avg, al) - interp(t->amp, al) * season, name);
}
static double map3(double a, double b, double c, double s) {
  return (1 + a / (1 + b / (1 + c))) / (s + a / (s + b / (s + c)));
}
/* at: a latitude exactly at the end of a band, or 0 for all latitudes inside the band */
static void tropo(int band, int south, int at) {
  static const tab P = {{1013.25, 1017.25, 1015.75, 1011.75, 1013.00}, {0, -3.75, -2.25, -1.75, -0.5}};
  static const tab T = {{299.65, 294.15, 283.15, 272.15, 263.65}, {0, 7, 11, 15, 14.5}};
  static const tab B = {{6.30, 6.05, 5.58, 5.39, 4.53}, {0, 0.25, 0.32, 0.81, 0.62}};
  static const tab L = {{2.77, 3.15, 2.57, 1.81, 1.55}, {0, 0.33, 0.46, 0.74, 0.30}};
  static const tab R = {{75, 80, 76, 77.5, 82.5}, {0, 0, -1, -2.5, 2.5}};
  static const tab A1 = {{1.2769934e-3, 1.2683230e-3, 1.2465397e-3, 1.2196049e-3, 1.2045996e-3},
                         {0, 1.2709626e-5, 2.6523662e-5, 3.4000452e-5, 4.1202191e-5}};
  static const tab B1 = {{2.9153695e-3, 2.9152299e-3, 2.9288445e-3, 2.9022565e-3, 2.9024912e-3},
                         {0, 2.1414979e-5, 3.0160779e-5, 7.2562722e-5, 11.723375e-5}};
  static const tab C1 = {{62.610505e-3, 62.837393e-3, 63.721774e-3, 63.824265e-3, 64.258455e-3},
                         {0, 9.0128400e-5, 4.3497037e-5, 84.795348e-5, 170.37206e-5}};
  static const double A2[5] = {5.8021897e-4, 5.6794847e-4, 5.8118019e-4, 5.9727542e-4, 6.1641693e-4};
  static const double B2[5] = {1.4275268e-3, 1.5138625e-3, 1.4572752e-3, 1.5007428e-3, 1.7599082e-3};
  static const double C2[5] = {4.3472961e-2, 4.6729510e-2, 4.3908931e-2, 4.4626982e-2, 5.4736038e-2};
  spec_begin();
  SPEC;
  double doy = spec_any_d("doy"), la = at ? (south ? -at : at) * (PI_ / 180) : spec_any_d("lat"), h = spec_any_d("h"), el = spec_any_d("el");
  double lat = spec_cut(la * (180 / PI_), "lat"), e = el * (180 / PI_);
  spec_assume(south ? lat < 0 : lat >= 0);
  double al = spec_cut(fabs(lat), "|lat|");
  if (band > 0 && !at) spec_assume(al > 15 * band + 1e-9); /* a margin for the rounding of the conversion to degrees */
  if (band < 5 && !at) spec_assume(al < 15 * (band + 1) - 1e-9);
  double season = cos((doy - 28 + (south ? 365.25 / 2 : 0)) * (2 * PI_ / 365.25));
  double h_in = h, want = 0; /* the specification runs first: it names the intermediate values */
  if (h <= 11000) {
    if (h < 0) h = 0;
    if (e < 0.1) e = 0.1;
    double p0 = param(&P, al, season, "P"), t0 = param(&T, al, season, "T"), b = param(&B, al, season, "B") / 1000, l1 = param(&L, al, season, "L") + 1,
           rh = param(&R, al, season, "R");
    double es = 0.01 * exp(1.2378847e-5 * t0 * t0 - 1.9121316e-2 * t0 + 33.93711047 - 6343.1645 / t0);
    double fw = 1.00062 + 3.14e-6 * p0 + 5.6e-7 * (t0 - 273.15) * (t0 - 273.15);
    double e0 = rh / 100 * es * fw;
    double rd = 8314.34 / 28.9644, g = 9.80665;
    double ep = g / 287.054 / b;
    double t = t0 - b * h;
    double p = p0 * powf((float)(t / t0), (float)ep), w = e0 * powf((float)(t / t0), (float)(ep * l1));
    double glat = atan((1 - 6.6943799901413e-3) * tan(lat * (PI_ / 180)));
    double dg = 1 - 2.66e-3 * cos(2 * glat) - 2.8e-7 * h;
    double den = 9.784 * dg * l1;
    double tm = t * (1 - b * rd / den);
    double zhd = 2.2768e-3 / dg * p;
    double k2p = 64.79 - 77.604 * (18.0152 / 28.9644);
    double zwd = 1e-6 * (k2p + 377600.0 / tm) * rd * w / den;
    double s = sin(e * (PI_ / 180));
    double mh = map3(param(&A1, al, season, "A1"), param(&B1, al, season, "B1"), param(&C1, al, season, "C1"), s);
    mh += (1 / s - map3(2.53e-5, 5.49e-3, 1.14e-3, s)) * h / 1000;
    double mw = map3(spec_cut(interp(A2, al), "A2"), spec_cut(interp(B2, al), "B2"), spec_cut(interp(C2, al), "C2"), s);
    want = mh * zhd + mw * zwd;
  }
  LIB;
  double got = calc_troposphere(doy, la, h_in, el);
  SPEC;
  spec_eq_d(got, want, "delay");
  spec_end();
}
void h_tropo_0(void) { tropo(0, 0, 0), tropo(0, 1, 0); }
void h_tropo_1(void) { tropo(1, 0, 0), tropo(1, 1, 0); }
void h_tropo_2(void) { tropo(2, 0, 0), tropo(2, 1, 0); }
void h_tropo_3(void) { tropo(3, 0, 0), tropo(3, 1, 0); }
void h_tropo_4(void) { tropo(4, 0, 0), tropo(4, 1, 0); }
void h_tropo_5(void) { tropo(5, 0, 0), tropo(5, 1, 0); }
void h_tropo_ends(void) {
  for (int south = 0; south < 2; south++)
    for (int at = 15; at <= 75; at += 15) tropo(0, south, at);
}
/* NaN anywhere reads no table outside its bounds */
void h_tropo_nan(void) {
  spec_nan_aware(1);
  SPEC;
  double doy = spec_any_d("doy"), la = spec_any_d("lat"), h = spec_any_d("h"), el = spec_any_d("el");
  spec_assume(!(la <= 0) && !(la >= 0));
  LIB;
  double got = calc_troposphere(doy, la, h, el);
  SPEC;
  spec_cover(1, "reached");
  (void)got;
}
