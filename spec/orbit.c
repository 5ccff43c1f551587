/* Satellite state from an ephemeris: Kepler (IS-GPS-200 Table 20-IV, BDS-SIS-ICD 5.2.4.12, Galileo OS-SIS-ICD 5.1.1),
 * SBAS polynomial, GLONASS numerical integration; look angles and Doppler. Velocities and accelerations are the
 * exact first and second time derivatives, obtained by second order automatic differentiation. */
#include <swiftnav/coord_system.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/signal.h>
#include "util.h"
#include "sigref.h"

#define W 604800.0
#define PI_ 3.141592653589793

typedef struct {
  double v, d, a;
} jet;
static jet J(double v, double d, double a) {
  jet r = {v, d, a};
  return r;
}
static jet add(jet x, jet y) { return J(x.v + y.v, x.d + y.d, x.a + y.a); }
static jet neg(jet x) { return J(-x.v, -x.d, -x.a); }
static jet mul(jet x, jet y) { return J(x.v * y.v, x.d * y.v + x.v * y.d, x.a * y.v + 2 * x.d * y.d + x.v * y.a); }
static jet scale(double k, jet x) { return J(k * x.v, k * x.d, k * x.a); }
static jet sine(jet x) { return J(sin(x.v), cos(x.v) * x.d, cos(x.v) * x.a - sin(x.v) * x.d * x.d); }
static jet cosine(jet x) { return J(cos(x.v), -sin(x.v) * x.d, -sin(x.v) * x.a - cos(x.v) * x.d * x.d); }

static double pos[3], vel[3], acc[3], clk, rate;

static void time_of(gps_time_t *t, const char *n, int wn) {
  t->wn = wn;
  t->tow = spec_any_d(n);
  spec_assume(t->tow >= 0 && t->tow < W);
}

static void kepler(int cons, int geo) {
  SPEC;
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  ephemeris_kepler_t *k = &e.data.kepler;
  gps_time_t t;
  time_of(&t, "t", 2001);
  time_of(&e.toe, "toe", 2000);
  time_of(&k->toc, "toc", 2000);
  int code = cons == GPS ? CODE_GPS_L1CA : cons == BDS ? CODE_BDS2_B1 : cons == QZS ? CODE_QZS_L1CA : CODE_GAL_E1B;
  e.sid.code = code;
  e.sid.sat = cons == QZS ? 193 : cons == BDS && !geo ? 6 : 1;
  spec_fill(&k->tgd, sizeof k->tgd, "tgd");
  k->crs = spec_any_d("crs"), k->crc = spec_any_d("crc");
  k->cus = spec_any_d("cus"), k->cuc = spec_any_d("cuc");
  k->cis = spec_any_d("cis"), k->cic = spec_any_d("cic");
  k->dn = spec_any_d("dn"), k->m0 = spec_any_d("m0"), k->ecc = spec_any_d("ecc"), k->sqrta = spec_any_d("sqrta");
  k->omega0 = spec_any_d("omega0"), k->omegadot = spec_any_d("omegadot"), k->w = spec_any_d("w");
  k->inc = spec_any_d("inc"), k->inc_dot = spec_any_d("inc_dot");
  k->af0 = spec_any_d("af0"), k->af1 = spec_any_d("af1"), k->af2 = spec_any_d("af2");
  spec_assume(k->ecc >= 0 && k->ecc < 1 && k->sqrta > 0);
  float tgd;
  LIB;
  get_tgd_correction(&e, &e.sid, &tgd);
  s8 r = calc_sat_state_n(&e, &t, geo ? GEO : MEO, pos, vel, acc, &clk, &rate);
  SPEC;
  spec_eq_i(r, 0, "computed");
  double dc = t.tow - k->toc.tow + W * (t.wn - k->toc.wn);
  double c = k->af0 + k->af1 * dc + k->af2 * dc * dc - tgd;
  double dt = t.tow - e.toe.tow + W * (t.wn - e.toe.wn) - c;
  double gm = cons == BDS || cons == GAL ? 3.986004418e14 : 3.986005e14;
  double we = cons == BDS ? 7.2921150e-5 : 7.2921151467e-5;
  double a = k->sqrta * k->sqrta;
  double n = sqrt(gm / (a * a * a)) + k->dn;
  double m = k->m0 + n * dt;
  /* Newton's method on Kepler's equation: until it moves by no more than 1e-14, at most six steps */
  double E = m, o, den;
  int i = 0;
  do {
    o = E;
    den = 1 - k->ecc * cos(o);
    E = o + (m - (o - k->ecc * sin(o))) / den;
  } while (++i < 6 && fabs(E - o) > 1e-14);
  double ed = n / den, ea = -ed * ed * k->ecc * sin(E) / den;
  jet tr = J(den, k->ecc * sin(E) * ed, k->ecc * cos(E) * ed * ed + k->ecc * sin(E) * ea); /* r / a */
  double q = sqrt(1 - k->ecc * k->ecc);
  double ld = q * ed / den;
  jet al = J(atan2(q * sin(E), cos(E) - k->ecc) + k->w, ld, 2 * ld * (-ed * k->ecc * sin(E) / den));
  jet s2 = sine(scale(2, al)), c2 = cosine(scale(2, al));
  jet u = add(al, add(scale(k->cus, s2), scale(k->cuc, c2)));
  jet rad = add(scale(a, tr), add(scale(k->crs, s2), scale(k->crc, c2)));
  jet inc = add(J(k->inc + k->inc_dot * dt, k->inc_dot, 0), add(scale(k->cis, s2), scale(k->cic, c2)));
  jet x = mul(rad, cosine(u)), y = mul(rad, sine(u));
  double od = k->omegadot - (geo ? 0 : we);
  double toe = e.toe.tow - (cons == BDS ? 14 : 0);
  jet om = J(k->omega0 + od * dt - we * toe, od, 0);
  jet yc = mul(y, cosine(inc));
  jet X = add(mul(x, cosine(om)), neg(mul(yc, sine(om))));
  jet Y = add(mul(x, sine(om)), mul(yc, cosine(om)));
  jet Z = mul(y, sine(inc));
  if (geo) {
    /* Rz(we dt) Rx(-5 degrees) */
    double s5 = -0.0871557427476582, c5 = 0.9961946980917456;
    jet y1 = add(scale(c5, Y), scale(s5, Z)), z1 = add(scale(-s5, Y), scale(c5, Z));
    jet rot = J(we * dt, we, 0);
    jet x2 = add(mul(X, cosine(rot)), mul(y1, sine(rot)));
    jet y2 = add(neg(mul(X, sine(rot))), mul(y1, cosine(rot)));
    X = x2, Y = y2, Z = z1;
  }
  spec_eq_d(pos[0], X.v, "x");
  spec_eq_d(pos[1], Y.v, "y");
  spec_eq_d(pos[2], Z.v, "z");
  spec_eq_d(clk, c - 2 * rad.v * rad.d / 299792458.0 / 299792458.0, "clock");
  spec_eq_d(rate, k->af1 + 2 * k->af2 * dc, "clock rate");
  spec_eq_d(vel[0], X.d, "vx");
  spec_eq_d(vel[1], Y.d, "vy");
  spec_eq_d(vel[2], Z.d, "vz");
  spec_eq_d(acc[2], Z.a, "az");
  spec_eq_d(acc[0], X.a, "ax");
  spec_eq_d(acc[1], Y.a, "ay");
}
void h_kepler_gps(void) { kepler(GPS, 0); }
void h_kepler_qzs(void) { kepler(QZS, 0); }
void h_kepler_bds(void) { kepler(BDS, 0); }
void h_kepler_gal(void) { kepler(GAL, 0); }
void h_kepler_geo(void) { kepler(BDS, 1); }

/* ---- SBAS: polynomial about the time of applicability ---- */
void h_sbas(void) {
  SPEC;
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  gps_time_t t;
  time_of(&t, "t", 1999);
  time_of(&e.toe, "toe", 2000);
  e.sid.code = CODE_SBAS_L1CA;
  e.sid.sat = 120;
  ephemeris_xyz_t *x = &e.data.xyz;
  for (int i = 0; i < 3; i++) x->pos[i] = spec_any_d("p"), x->vel[i] = spec_any_d("v"), x->acc[i] = spec_any_d("a");
  x->a_gf0 = spec_any_d("af0");
  x->a_gf1 = spec_any_d("af1");
  LIB;
  s8 r = calc_sat_state_n(&e, &t, MEO, pos, vel, acc, &clk, &rate);
  SPEC;
  spec_eq_i(r, 0, "computed");
  double dt = t.tow - e.toe.tow - W;
  double c = x->a_gf0 + x->a_gf1 * dt;
  spec_eq_d(clk, c, "clock");
  spec_eq_d(rate, x->a_gf1, "clock rate");
  dt -= c;
  for (int i = 0; i < 3; i++) {
    spec_eq_d(pos[i], x->pos[i] + x->vel[i] * dt + x->acc[i] * dt * dt / 2, "position");
    spec_eq_d(vel[i], x->vel[i] + x->acc[i] * dt, "velocity");
    spec_eq_d(acc[i], x->acc[i], "acceleration");
  }
}

/* ---- GLONASS: fourth order Runge-Kutta integration in steps of at most 30 s, at most 30 of them ---- */
static void glo_rhs(const double s[6], const double a[3], double d[6]) {
  double gm = 3.986004418e14, j2 = 1.08262575e-3, ae = 6378136.0, w = 7.292115e-5;
  double r2 = s[0] * s[0] + s[1] * s[1] + s[2] * s[2], r = sqrt(r2);
  double m = gm / (r * r2), g = 1.5 * j2 * m * ae * ae / r2, z = 5 * s[2] * s[2] / r2;
  for (int i = 0; i < 3; i++) d[i] = s[3 + i];
  d[3] = spec_cut((-m - g * (1 - z) + w * w) * s[0] + 2 * w * s[4] + a[0], "ax");
  d[4] = spec_cut((-m - g * (1 - z) + w * w) * s[1] - 2 * w * s[3] + a[1], "ay");
  d[5] = spec_cut((-m - g * (3 - z)) * s[2] + a[2], "az");
}
static void glo(int n, int sign) {
  spec_begin();
  SPEC;
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  gps_time_t t;
  t.wn = e.toe.wn = 2000;
  t.tow = spec_any_d("t");
  e.toe.tow = spec_any_d("toe");
  spec_assume(t.tow >= 0 && t.tow < W && e.toe.tow >= 0 && e.toe.tow < W);
  e.sid.code = CODE_GLO_L1OF;
  e.sid.sat = 1;
  ephemeris_glo_t *g = &e.data.glo;
  double s[6];
  for (int i = 0; i < 3; i++) {
    s[i] = g->pos[i] = spec_any_d("p");
    s[3 + i] = g->vel[i] = spec_any_d("v");
    g->acc[i] = spec_any_d("a");
  }
  g->tau = spec_any_d("tau");
  g->gamma = spec_any_d("gamma");
  g->d_tau = spec_any_d("d_tau");
  float tgd;
  LIB;
  get_tgd_correction(&e, &e.sid, &tgd);
  SPEC;
  double d0 = t.tow - e.toe.tow;
  double c = -g->tau + g->gamma * d0 - tgd;
  double dt = spec_cut(d0 - c, "dt"), ab = sign < 0 ? -dt : dt;
  if (n == 0) spec_assume(ab == 0);
  else if (n == 30) spec_assume(ab > 870 && ab < 1e9);
  else spec_assume(ab > 30 * (n - 1) && ab <= 30 * n);
  double h = dt / (n ? n : 1), d[6], k[4][6], y[6];
  for (int i = 0; i < n; i++) {
    for (int q = 0; q < 4; q++) {
      double f = q == 0 ? 0 : q == 3 ? h : h / 2;
      for (int j = 0; j < 6; j++) y[j] = q ? spec_cut(s[j] + f * k[q - 1][j], "y") : s[j];
      glo_rhs(y, g->acc, k[q]);
    }
    for (int j = 0; j < 6; j++) s[j] = spec_cut(s[j] + h / 6 * (k[0][j] + 2 * k[1][j] + 2 * k[2][j] + k[3][j]), "s");
  }
  glo_rhs(s, g->acc, d);
  LIB;
  s8 r = calc_sat_state_n(&e, &t, MEO, pos, vel, acc, &clk, &rate);
  SPEC;
  spec_eq_i(r, 0, "computed");
  spec_eq_d(clk, c, "clock");
  spec_eq_d(rate, g->gamma, "clock rate");
  for (int i = 0; i < 3; i++) {
    spec_eq_d(pos[i], s[i], "position");
    spec_eq_d(vel[i], s[3 + i], "velocity");
    spec_eq_d(acc[i], d[3 + i], "acceleration");
  }
  spec_end();
}
static void glo_range(int a, int b) {
  for (int n = a; n < b; n++) {
    glo(n, 1);
    glo(n, -1);
  }
}
void h_glo_0(void) { glo_range(0, 9); }
void h_glo_9(void) { glo_range(9, 16); }
void h_glo_16(void) { glo_range(16, 21); }
void h_glo_21(void) { glo_range(21, 26); }
void h_glo_26(void) { glo_range(26, 31); }

/* ---- the validity gate, look angles, Doppler ---- */
static double pos2[3], vel2[3], acc2[3], clk2, rate2;

/* an ephemeris with concrete orbit data for a given signal */
static void some_orbit(ephemeris_t *e, int code) {
  memset(e, 0, sizeof *e);
  e->sid.code = code;
  int cons = ref[code].cons;
  e->sid.sat = cons == SBAS ? 120 : cons == QZS ? 193 : cons == BDS ? 6 : 1;
  e->toe.wn = 2000;
  e->toe.tow = 3600;
  e->fit_interval = 7200;
  e->valid = 1;
  if (cons == SBAS) {
    for (int i = 0; i < 3; i++) {
      e->data.xyz.pos[i] = spec_any_d("p");
      e->data.xyz.vel[i] = spec_any_d("v");
      e->data.xyz.acc[i] = spec_any_d("a");
    }
  } else if (cons == GLO) {
    e->data.glo.pos[0] = 2.0e7, e->data.glo.pos[1] = 1.2e7, e->data.glo.pos[2] = -0.9e7;
    e->data.glo.vel[0] = 1000, e->data.glo.vel[1] = -500, e->data.glo.vel[2] = 3000;
    e->data.glo.fcn = 12;
  } else {
    ephemeris_kepler_t *k = &e->data.kepler;
    k->toc = e->toe;
    k->sqrta = 5153.7, k->ecc = 0.01, k->m0 = 0.5, k->omega0 = 1, k->omegadot = -8e-9, k->w = 0.25, k->inc = 0.96;
    k->crs = 20, k->cuc = 1e-6, k->af0 = 0.5f;
  }
}

static void gate_at(int code, int late) {
  spec_begin();
  SPEC;
  ephemeris_t e;
  some_orbit(&e, code);
  gps_time_t t;
  t.wn = 2000;
  t.tow = late && (code == CODE_GLO_L1OF || spec_any_u(1, "late")) ? 90000 : 3700;
  e.valid = spec_any_u(1, "valid");
  if (late) e.toe.wn = code != CODE_GLO_L1OF && spec_any_u(1, "week") ? 2000 : 0;
  e.health_bits = spec_any_u(8, "health");
  if (spec_any_u(1, "no fit")) e.fit_interval = 0;
  int geo = spec_any_u(1, "geo");
  double az = 7, el = 7, az2, el2, dop = 7, rp[3], rv[3], n[3];
  for (int i = 0; i < 3; i++) pos[i] = spec_any_d("pos"), rv[i] = spec_any_d("rv"), vel[i] = pos[i];
  rp[0] = 4.0e6, rp[1] = -1.0e6, rp[2] = 4.7e6;
  double was = pos[0];
  LIB;
  if (code == CODE_GLO_L1OF) glo_map_set_slot_id(12, 1);
  ephemeris_status_t st = ephemeris_valid_detailed(&e, &t);
  s8 r = geo ? calc_sat_state_orbit_type(&e, &t, GEO, pos, vel, acc, &clk, &rate)
             : calc_sat_state(&e, &t, pos, vel, acc, &clk, &rate);
  s8 ra = calc_sat_az_el(&e, &t, rp, geo ? GEO : MEO, &az, &el, true);
  s8 rd = calc_sat_doppler(&e, &t, rp, rv, geo ? GEO : MEO, &dop);
  SPEC;
  int ok = st == EPH_VALID;
  spec_eq_i(r, ok ? 0 : -1, "state");
  spec_eq_i(ra, ok ? 0 : -1, "azimuth and elevation");
  spec_eq_i(rd, ok ? 0 : -1, "Doppler");
  spec_cover(ok || late, "usable");
  spec_cover(!ok, "unusable");
  if (!ok) {
    spec_eq_d(pos[0], was, "position kept");
    spec_eq_d(az, 7, "azimuth kept");
    spec_eq_d(dop, 7, "Doppler kept");
  } else {
    LIB;
    calc_sat_state_n(&e, &t, geo ? GEO : MEO, pos2, vel2, acc2, &clk2, &rate2);
    wgsecef2azel(pos2, rp, &az2, &el2);
    SPEC;
    double d2 = 0, dv = 0;
    for (int i = 0; i < 3; i++) {
      spec_eq_d(pos[i], pos2[i], "position");
      spec_eq_d(vel[i], vel2[i], "velocity");
      spec_eq_d(acc[i], acc2[i], "acceleration");
      d2 += (pos2[i] - rp[i]) * (pos2[i] - rp[i]);
      dv += (pos2[i] - rp[i]) * (vel2[i] - rv[i]);
    }
    spec_eq_d(clk, clk2, "clock");
    spec_eq_d(rate, rate2, "clock rate");
    spec_eq_d(az, az2, "azimuth");
    spec_eq_d(el, el2, "elevation");
    double f;
    LIB;
    f = sid_to_carr_freq(e.sid);
    SPEC;
    spec_eq_d(dop, f * (dv / sqrt(d2)) / 299792458.0, "Doppler shift");
  }
  spec_end();
}
static void gate(int code) {
  gate_at(code, 0);
  gate_at(code, 1);
}
void h_gate_gps(void) { gate(CODE_GPS_L1CA); }
void h_gate_sbas(void) { gate(CODE_SBAS_L1CA); }
void h_gate_bds(void) { gate(CODE_BDS2_B1); }
void h_gate_gal(void) { gate(CODE_GAL_E1B); }
void h_gate_qzs(void) { gate(CODE_QZS_L1CA); }
void h_gate_glo(void) { gate(CODE_GLO_L1OF); }

void h_unchecked(void) {
  static const int codes[] = {CODE_GPS_L1CA, CODE_BDS2_B1, CODE_GAL_E1B, CODE_QZS_L1CA, CODE_GLO_L1OF, CODE_SBAS_L1CA};
  for (int q = 0; q < 6; q++) {
    spec_begin();
    SPEC;
    ephemeris_t e;
    some_orbit(&e, codes[q]);
    e.valid = 0;
    e.fit_interval = 0;
    e.health_bits = 0xff;
    gps_time_t t;
    t.wn = 2000;
    t.tow = 5000;
    int geo = spec_any_u(1, "geo");
    double az, el, az2, el2, rp[3];
    for (int i = 0; i < 3; i++) rp[i] = 4.0e6 - 1e5 * i;
    LIB;
    s8 r = calc_sat_az_el(&e, &t, rp, geo ? GEO : MEO, &az, &el, false);
    calc_sat_state_n(&e, &t, geo ? GEO : MEO, pos2, vel2, acc2, &clk2, &rate2);
    wgsecef2azel(pos2, rp, &az2, &el2);
    SPEC;
    spec_eq_i(r, 0, "computed");
    spec_eq_d(az, az2, "azimuth");
    spec_eq_d(el, el2, "elevation");
    spec_end();
  }
}
