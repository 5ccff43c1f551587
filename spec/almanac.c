/* GPS almanac, health, UTC and ionosphere pages of subframes 4 and 5 (IS-GPS-200 20.3.3.5), and use of the almanac. */
#include <swiftnav/almanac.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/signal.h>
#include "util.h"
#include "sigref.h"

#define W 604800.0
#define PI_ 3.1415926535898

/* words 3..10 of a subframe, 30 bits each, bit 1 transmitted first; bits 25-30 are parity */
static u32 words[8];
static u32 F(int word, int first, int len) { return (words[word - 3] >> (31 - first - len)) & ((1u << len) - 1); }
static void page(void) {
  spec_fill(words, sizeof words, "words");
  spec_readonly(words, sizeof words, "the words");
}
static int page_is(int id) { return F(3, 1, 2) == 1 && F(3, 3, 6) == (u32)id; }
static u16 week256(u32 w, u16 from) { return (u16)(w >= from ? w : from + ((w - from) & 255)); }

void h_almanac(void) {
  SPEC;
  page();
  almanac_t a;
  spec_fill(&a, sizeof a, "before");
  LIB;
  bool ok = almanac_decode(words, &a);
  SPEC;
  u32 prn = F(3, 3, 6);
  bool want = F(3, 1, 2) == 1 && prn >= 1 && prn <= 32;
  spec_eq_u(ok, want, "accepted");
  spec_eq_u(a.valid, want, "valid");
  if (want) {
    spec_eq_i(a.sid.code, CODE_GPS_L1CA, "code");
    spec_eq_u(a.sid.sat, prn, "satellite");
    spec_eq_u(a.fit_interval, 140 * 3600, "fit interval");
    spec_eq_d(a.ura, 900, "ura");
    spec_eq_i(a.toa.wn, WN_UNKNOWN, "week");
    spec_eq_d(a.toa.tow, F(4, 1, 8) * 4096.0, "toa");
    spec_eq_u(a.health_bits, F(5, 17, 8), "health");
    almanac_kepler_t *k = &a.data.kepler;
    spec_eq_d(k->ecc, F(3, 9, 16) * p2(-21), "eccentricity");
    spec_eq_d(k->inc, (sx(F(4, 9, 16), 16) * p2(-19) + 0.30) * PI_, "inclination");
    spec_eq_d(k->omegadot, sx(F(5, 1, 16), 16) * p2(-38) * PI_, "omegadot");
    spec_eq_d(k->sqrta, F(6, 1, 24) * p2(-11), "sqrta");
    spec_eq_d(k->omega0, sx(F(7, 1, 24), 24) * p2(-23) * PI_, "omega0");
    spec_eq_d(k->w, sx(F(8, 1, 24), 24) * p2(-23) * PI_, "w");
    spec_eq_d(k->m0, sx(F(9, 1, 24), 24) * p2(-23) * PI_, "m0");
    spec_eq_d(k->af0, sx(F(10, 1, 8) * 8 + F(10, 20, 3), 11) * p2(-20), "af0");
    spec_eq_d(k->af1, sx(F(10, 9, 11), 11) * p2(-38), "af1");
  }
  spec_cover(ok, "accepted");
}

void h_week(void) {
  SPEC;
  page();
  u16 from = spec_any_u(15, "reference");
  spec_assume(from < 32000);
  almanac_ref_week_t r, d;
  LIB;
  bool ok = almanac_decode_week_with_wn_ref(words, &r, from), ok2 = almanac_decode_week(words, &d);
  SPEC;
  bool want = page_is(51);
  spec_eq_u(ok, want, "accepted");
  spec_eq_u(ok2, want, "accepted, default reference");
  spec_eq_i(r.wna, want ? week256(F(3, 17, 8), from) : 0, "week");
  spec_eq_i(r.toa, want ? F(3, 9, 8) * 4096 : 0, "toa");
  spec_eq_i(d.wna, want ? week256(F(3, 17, 8), GPS_WEEK_REFERENCE) : 0, "week, default reference");
  spec_eq_i(d.toa, want ? F(3, 9, 8) * 4096 : 0, "toa, default reference");
}

void h_health(void) {
  SPEC;
  page();
  almanac_health_t h;
  LIB;
  bool ok = almanac_decode_health(words, &h);
  SPEC;
  int p4 = page_is(63), p5 = page_is(51);
  spec_eq_u(ok, p4 || p5, "accepted");
  spec_eq_u(h.health_bits_valid, p4 ? 0xff000000u : p5 ? 0xffffffu : 0, "which satellites");
  for (int sv = 1; sv <= 32; sv++) {
    u32 v = 0;
    if (p5 && sv <= 24) v = F(4 + (sv - 1) / 4, 1 + 6 * ((sv - 1) % 4), 6);
    if (p4 && sv == 25) v = F(8, 19, 6);
    if (p4 && sv >= 26 && sv <= 29) v = F(9, 1 + 6 * (sv - 26), 6);
    if (p4 && sv >= 30) v = F(10, 1 + 6 * (sv - 30), 6);
    spec_eq_u(h.health_bits[sv - 1], v, "health of a satellite");
  }
}

void h_iono(void) {
  SPEC;
  page();
  ionosphere_t i;
  spec_fill(&i, sizeof i, "before");
  LIB;
  bool ok = decode_iono_parameters(words, &i);
  SPEC;
  int w = page_is(56);
  spec_eq_u(ok, w, "accepted");
  spec_eq_d(i.a0, w ? sx(F(3, 9, 8), 8) * p2(-30) : 0, "a0");
  spec_eq_d(i.a1, w ? sx(F(3, 17, 8), 8) * p2(-27) : 0, "a1");
  spec_eq_d(i.a2, w ? sx(F(4, 1, 8), 8) * p2(-24) : 0, "a2");
  spec_eq_d(i.a3, w ? sx(F(4, 9, 8), 8) * p2(-24) : 0, "a3");
  spec_eq_d(i.b0, w ? sx(F(4, 17, 8), 8) * p2(11) : 0, "b0");
  spec_eq_d(i.b1, w ? sx(F(5, 1, 8), 8) * p2(14) : 0, "b1");
  spec_eq_d(i.b2, w ? sx(F(5, 9, 8), 8) * p2(16) : 0, "b2");
  spec_eq_d(i.b3, w ? sx(F(5, 17, 8), 8) * p2(16) : 0, "b3");
}

static void utc(int dn) {
  spec_begin();
  SPEC;
  page();
  if (dn) words[9 - 3] = (words[9 - 3] & ~(0xffu << 6)) | (u32)dn << 6;
  else spec_assume(!page_is(56) || F(9, 17, 8) < 1 || F(9, 17, 8) > 7);
  u16 from = dn ? 2304 : spec_any_u(12, "reference");
  utc_params_t u;
  spec_fill(&u, sizeof u, "before");
  LIB;
  bool ok = decode_utc_parameters_with_wn_ref(words, &u, from);
  SPEC;
  int w = page_is(56) && dn;
  spec_eq_u(ok, w, "accepted");
  if (w) {
    double a1 = sx(F(6, 1, 24), 24) * p2(-50), a0 = sx(F(7, 1, 24) * 256u + F(8, 1, 8), 32) * p2(-30);
    double tot = F(8, 9, 8) * 4096.0;
    int ls = sx(F(9, 1, 8), 8);
    int wt = week256(F(8, 17, 8), from), wl = week256(F(9, 9, 8), from);
    spec_eq_d(u.a0, a0, "a0");
    spec_eq_d(u.a1, a1, "a1");
    spec_eq_d(u.a2, 0, "a2");
    spec_eq_d(u.tot.tow, tot, "tot");
    spec_eq_i(u.tot.wn, wt, "tot week");
    spec_eq_i(u.dt_ls, ls, "dt_ls");
    spec_eq_i(u.dt_lsf, sx(F(10, 1, 8), 8), "dt_lsf");
    /* the event begins at the end of day dn of week wl in UTC: that midnight plus GPS - UTC at that time */
    double s = dn * 86400.0 + (ls + a0 + a1 * (dn * 86400.0 - tot + W * (wl - wt)));
    spec_eq_i(u.t_lse.wn, s < W ? wl : wl + 1, "event week");
    spec_eq_d(u.t_lse.tow, s < W ? s : s - W, "event time");
  }
  spec_end();
}
void h_utc_no(void) { utc(0); }
void h_utc_days(void) {
  for (int d = 1; d < 7; d++) utc(d);
}
void h_utc_7(void) { utc(7); }
void h_utc_default(void) {
  SPEC;
  page();
  spec_assume(F(9, 17, 8) == 3);
  utc_params_t u, v;
  LIB;
  bool a = decode_utc_parameters(words, &u), b = decode_utc_parameters_with_wn_ref(words, &v, GPS_WEEK_REFERENCE);
  SPEC;
  spec_eq_u(a, b, "accepted");
  spec_eq_i(u.tot.wn, v.tot.wn, "tot week");
  spec_eq_i(u.t_lse.wn, v.t_lse.wn, "event week");
  spec_eq_d(u.t_lse.tow, v.t_lse.tow, "event time");
}

/* ---- use of the almanac ---- */
#define B(n) (1u << (n))
static int in(u32 v, u32 mask) { return (mask >> v) & 1; }
static int alm_healthy(u8 bits, int c) {
  u32 top = bits >> 5, low = bits & 31;
  if (!in(top, B(0) | B(2) | B(3) | B(4))) return 0;
  if (in(low, B(1) | B(2) | B(3) | B(28) | B(29) | B(30) | B(31))) return 0;
  if (c == CODE_GPS_L1CA || c == CODE_AUX_GPS || c == CODE_QZS_L1CA || c == CODE_AUX_QZS)
    return !in(low, B(10) | B(11) | B(12) | B(19) | B(20) | B(21) | B(22) | B(23) | B(24));
  if (c == CODE_GPS_L2CM || c == CODE_GPS_L2CL || c == CODE_GPS_L2CX || c == CODE_QZS_L2CM || c == CODE_QZS_L2CL ||
      c == CODE_QZS_L2CX)
    return !in(low, B(13) | B(14) | B(15) | B(19) | B(20) | B(21) | B(25) | B(26) | B(27));
  if (c == CODE_GPS_L1P) return !in(low, B(4) | B(5) | B(6) | B(16) | B(17) | B(18) | B(22) | B(23) | B(24));
  if (c == CODE_GPS_L2P) return !in(low, B(7) | B(8) | B(9) | B(16) | B(17) | B(18) | B(25) | B(26) | B(27));
  return 1;
}
void h_usable(void) {
  SPEC;
  almanac_t a;
  spec_fill(&a, sizeof a, "a");
  a.sid.code = (code_t)spec_any_i(8, "code");
  LIB;
  u8 h = almanac_healthy(&a);
  SPEC;
  spec_eq_u(h, alm_healthy(a.health_bits, a.sid.code), "healthy");
  /* weeks of the almanac and of the query; week 0 means no time stamp */
  static const int wa[] = {1500, 1500, 1500, 1500, 1500, 1500, 1500, 1, WN_UNKNOWN, 0, 0, 0};
  static const int wt[] = {1498, 1499, 1500, 1501, 1502, 2523, 2524, 1, 1500, 0, 1, 1500};
  for (int i = 0; i < 12; i++) {
    spec_begin();
    SPEC;
    gps_time_t t;
    a.toa.wn = wa[i];
    t.wn = wt[i];
    a.toa.tow = spec_any_d("toa");
    t.tow = spec_any_d("t");
    spec_assume(a.toa.tow >= 0 && a.toa.tow < W && t.tow >= 0 && t.tow < W);
    a.fit_interval = spec_any_u(24, "fit");
    a.sid.code = CODE_GPS_L1CA;
    LIB;
    u8 v = almanac_valid(&a, &t);
    SPEC;
    double d = t.tow - a.toa.tow;
    if (wa[i] != WN_UNKNOWN) d += W * (wt[i] - wa[i]);
    else if (d > W / 2) d -= W;
    else if (d < -W / 2) d += W;
    double half = (double)(a.fit_interval / 2);
    spec_eq_u(v, a.valid && alm_healthy(a.health_bits, CODE_GPS_L1CA) && a.fit_interval > 0 && a.toa.wn != 0 && fabs(d) <= half,
              "valid at the time");
    spec_end();
  }
}

/* field by field equality for the three kinds of almanac; real fields up to 1e-12, except those of SBAS: bit by bit */
static int near(double a, double b) { return fabs(a - b) < 1e-12; }
static void equal(int cons) {
  spec_begin();
  SPEC;
  almanac_t a, b;
  memset(&a, 0, sizeof a);
  memset(&b, 0, sizeof b);
  a.sid.code = cons == GPS ? CODE_GPS_L1CA : cons == SBAS ? CODE_SBAS_L1CA : CODE_GLO_L1OF;
  b.sid.code = spec_any_u(1, "same code") ? a.sid.code : CODE_GPS_L2CM;
  a.sid.sat = spec_any_u(16, "sat a"), b.sid.sat = spec_any_u(16, "sat b");
  a.ura = spec_any_f("ura a"), b.ura = spec_any_f("ura b");
  a.fit_interval = spec_any_u(32, "fit a"), b.fit_interval = spec_any_u(32, "fit b");
  a.valid = spec_any_u(8, "valid a"), b.valid = spec_any_u(8, "valid b");
  a.health_bits = spec_any_u(8, "health a"), b.health_bits = spec_any_u(8, "health b");
  a.toa.wn = spec_any_i(16, "wn a"), b.toa.wn = spec_any_i(16, "wn b");
  a.toa.tow = spec_any_d("tow a"), b.toa.tow = spec_any_d("tow b");
  double *p = (double *)&a.data, *q = (double *)&b.data;
  int n = cons == GPS ? 9 : cons == SBAS ? 9 : 7;
  bool same = a.sid.code == b.sid.code && a.sid.sat == b.sid.sat && near(a.ura, b.ura) && a.fit_interval == b.fit_interval &&
              a.valid == b.valid && a.health_bits == b.health_bits && a.toa.wn == b.toa.wn && near(a.toa.tow, b.toa.tow);
  if (cons == SBAS) {
    /* compared bit by bit */
    static uint64_t u[9], v[9];
    for (int i = 0; i < n; i++) {
      u[i] = spec_any_u(64, "x"), v[i] = spec_any_u(64, "y");
      memcpy(&p[i], &u[i], 8);
      memcpy(&q[i], &v[i], 8);
      same = same && u[i] == v[i];
    }
  } else {
    for (int i = 0; i < n; i++) {
      p[i] = spec_any_d("x"), q[i] = spec_any_d("y");
      same = same && near(p[i], q[i]);
    }
  }
  LIB;
  bool e = almanac_equal(&a, &b);
  SPEC;
  spec_eq_u(e, same, "equal");
  spec_end();
}
void h_equal(void) {
  equal(GPS);
  equal(SBAS);
  equal(GLO);
}

/* the state is that of the ephemeris with the same parameters */
static double pos[3], vel[3], acc[3], clk, rate, pos2[3], vel2[3], acc2[3], clk2, rate2;
static void state(int cons, int week) {
  spec_begin();
  SPEC;
  almanac_t a;
  ephemeris_t e;
  gps_time_t t;
  memset(&a, 0, sizeof a);
  memset(&e, 0, sizeof e);
  a.sid.code = e.sid.code = cons == GPS ? CODE_GPS_L1CA : CODE_SBAS_L1CA;
  a.sid.sat = e.sid.sat = cons == GPS ? 7 : 130;
  t.wn = 1500;
  a.toa.wn = e.toe.wn = week;
  a.toa.tow = spec_any_d("toa");
  t.tow = spec_any_d("t");
  spec_assume(a.toa.tow >= 0 && a.toa.tow < W && t.tow >= 0 && t.tow < W);
  e.toe.tow = a.toa.tow;
  a.ura = e.ura = spec_any_f("ura");
  a.fit_interval = e.fit_interval = spec_any_u(20, "fit");
  a.valid = e.valid = spec_any_u(8, "valid");
  a.health_bits = e.health_bits = spec_any_u(8, "health");
  if (cons == GPS) {
    a.ura = e.ura = 2;
    a.fit_interval = e.fit_interval = 504000;
    a.valid = e.valid = 1;
    a.health_bits = e.health_bits = 0;
    almanac_kepler_t *k = &a.data.kepler;
    ephemeris_kepler_t *m = &e.data.kepler;
    m->m0 = k->m0 = spec_any_d("m0");
    m->ecc = k->ecc = spec_any_d("ecc");
    m->sqrta = k->sqrta = spec_any_d("sqrta");
    m->omega0 = k->omega0 = spec_any_d("omega0");
    m->omegadot = k->omegadot = spec_any_d("omegadot");
    m->w = k->w = spec_any_d("w");
    m->inc = k->inc = spec_any_d("inc");
    k->af0 = spec_any_d("af0");
    k->af1 = spec_any_d("af1");
    m->af0 = k->af0;
    m->af1 = k->af1;
    m->toc = e.toe;
  } else {
    for (int i = 0; i < 3; i++) {
      e.data.xyz.pos[i] = a.data.xyz.pos[i] = spec_any_d("p");
      e.data.xyz.vel[i] = a.data.xyz.vel[i] = spec_any_d("v");
      e.data.xyz.acc[i] = a.data.xyz.acc[i] = spec_any_d("a");
    }
  }
  for (int i = 0; i < 3; i++) pos2[i] = pos[i] = 1, vel2[i] = vel[i] = 2, acc2[i] = acc[i] = 3;
  clk = rate = clk2 = rate2 = 0;
  LIB;
  s8 r2 = calc_sat_state(&e, &t, pos2, vel2, acc2, &clk2, &rate2);
  s8 r = calc_sat_state_almanac(&a, &t, pos, vel, acc, &clk, &rate);
  SPEC;
  spec_eq_i(r, r2, "result");
  for (int i = 0; i < 3; i++) {
    spec_eq_d(pos[i], pos2[i], "position");
    spec_eq_d(vel[i], vel2[i], "velocity");
    spec_eq_d(acc[i], acc2[i], "acceleration");
  }
  spec_eq_d(clk, clk2, "clock");
  spec_eq_d(rate, rate2, "clock rate");
  spec_end();
}
void h_state_gps(void) { state(GPS, 1500); }
void h_state_sbas(void) { state(SBAS, 1500); }
void h_state_no_week(void) {
  state(GPS, WN_UNKNOWN);
  state(SBAS, WN_UNKNOWN);
}

static void look(int cons) {
  spec_begin();
  SPEC;
  almanac_t a;
  gps_time_t t;
  memset(&a, 0, sizeof a);
  a.sid.code = cons == GPS ? CODE_GPS_L1CA : CODE_SBAS_L1CA;
  a.sid.sat = cons == GPS ? 7 : 130;
  a.toa.wn = t.wn = 1500;
  a.toa.tow = 61440;
  t.tow = spec_any_u(1, "late") ? 500000 : 70000;
  a.fit_interval = 504000;
  a.valid = spec_any_u(8, "valid");
  if (cons == GPS) {
    almanac_kepler_t *k = &a.data.kepler;
    k->sqrta = 5153.7, k->ecc = 0.01, k->m0 = 0.5, k->omega0 = 1, k->omegadot = -8e-9, k->w = 0.25, k->inc = 0.96;
  } else {
    for (int i = 0; i < 3; i++) a.data.xyz.pos[i] = spec_any_d("p"), a.data.xyz.vel[i] = spec_any_d("v");
  }
  double rp[3], az = 7, el = 7, az2, el2, dop = 7;
  rp[0] = 4.0e6, rp[1] = -1.0e6, rp[2] = 4.7e6;
  LIB;
  s8 r = calc_sat_state_almanac(&a, &t, pos, vel, acc, &clk, &rate);
  s8 ra = calc_sat_az_el_almanac(&a, &t, rp, &az, &el), rd = calc_sat_doppler_almanac(&a, &t, rp, &dop);
  SPEC;
  spec_eq_i(ra, r, "azimuth and elevation computed");
  spec_eq_i(rd, r, "Doppler computed");
  spec_cover(r == 0, "usable");
  spec_cover(r != 0, "unusable");
  if (r) {
    spec_eq_d(az, 7, "azimuth kept");
    spec_eq_d(el, 7, "elevation kept");
    spec_eq_d(dop, 7, "Doppler kept");
  } else {
    LIB;
    wgsecef2azel(pos, rp, &az2, &el2);
    SPEC;
    double d2 = 0, dv = 0;
    for (int i = 0; i < 3; i++) {
      d2 += (pos[i] - rp[i]) * (pos[i] - rp[i]);
      dv += (pos[i] - rp[i]) * vel[i];
    }
    spec_eq_d(az, az2, "azimuth");
    spec_eq_d(el, el2, "elevation");
    spec_eq_d(dop, 1575.42e6 * (dv / sqrt(d2)) / 299792458.0, "Doppler shift");
  }
  spec_end();
}
void h_look(void) {
  look(GPS);
  look(SBAS);
}
