/* Ephemeris bookkeeping: accuracy and fit tables, status, health, validity window, equality, group delay. */
#include <swiftnav/ephemeris.h>
#include <swiftnav/shm.h>
#include <swiftnav/signal.h>
#include "util.h"
#include "sigref.h"

#define W 604800.0

static const float ura_tab[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f,
                                  1024.0f, 2048.0f, 4096.0f, 6144.0f};

void h_ura_index(void) {
  u8 i = spec_any_u(8, "index");
  LIB;
  float v = decode_ura_index(i), b = decode_bds_ura_index(i);
  SPEC;
  spec_eq_d(v, i < 16 ? ura_tab[i] : -1.0f, "GPS URA");
  spec_eq_d(b, i < 15 ? ura_tab[i] : -1.0f, "BDS URA");
}

static int ref_index(float u) {
  if (u < 0) return 255;
  for (int i = 0; i < 16; i++)
    if (u <= ura_tab[i]) return i;
  return 255;
}

void h_encode_ura(void) {
  float u = spec_any_f("ura");
  LIB;
  u8 i = encode_ura(u);
  SPEC;
  spec_eq_u(i, ref_index(u), "URA index");
  spec_begin();
  SPEC;
  u8 k = spec_any_u(4, "k");
  LIB;
  u8 r = encode_ura(decode_ura_index(k));
  SPEC;
  spec_eq_u(r, k, "round trip");
  spec_end();
}

void h_fit(void) {
  u8 flag = spec_any_u(8, "flag");
  u16 iodc = spec_any_u(16, "iodc");
  LIB;
  u32 f = decode_fit_interval(flag, iodc);
  SPEC;
  u32 h = 6;
  if (iodc >= 240 && iodc <= 247) h = 8;
  if ((iodc >= 248 && iodc <= 255) || iodc == 496) h = 14;
  if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) h = 26;
  if (iodc >= 504 && iodc <= 510) h = 50;
  if (iodc == 511 || (iodc >= 752 && iodc <= 756)) h = 74;
  if (iodc == 757) h = 98;
  if (!flag) h = 4;
  spec_eq_u(f, h * 3600, "fit interval");
}

/* ---- health ---- */
static int in(u32 v, u32 mask) { return (mask >> v) & 1; }
#define B(n) (1u << (n))
static int ref_health6(u8 bits, code_t c) {
  u32 low = bits & 31;
  if ((bits & 0x20) && (c == CODE_GPS_L1CA || c == CODE_AUX_GPS || c == CODE_GPS_L1P)) return 0;
  if (in(low, B(1) | B(2) | B(3) | B(28) | B(29) | B(30) | B(31))) return 0;
  if (c == CODE_GPS_L1CA || c == CODE_AUX_GPS || c == CODE_QZS_L1CA || c == CODE_AUX_QZS)
    return !in(low, B(10) | B(11) | B(12) | B(19) | B(20) | B(21) | B(22) | B(23) | B(24));
  if (c == CODE_GPS_L2CM || c == CODE_GPS_L2CL || c == CODE_GPS_L2CX || c == CODE_QZS_L2CM || c == CODE_QZS_L2CL ||
      c == CODE_QZS_L2CX)
    return !in(low, B(13) | B(14) | B(15) | B(19) | B(20) | B(21) | B(25) | B(26) | B(27));
  if (c == CODE_GPS_L1P) return !in(low, B(4) | B(5) | B(6) | B(16) | B(17) | B(18) | B(22) | B(23) | B(24));
  if (c == CODE_GPS_L2P) return !in(low, B(7) | B(8) | B(9) | B(16) | B(17) | B(18) | B(25) | B(26) | B(27));
  return 1;
}

static code_t any_code(void) {
  int c = spec_any_u(7, "code");
  spec_assume(c < CODE_COUNT);
  return (code_t)c;
}

static constellation_t ref_cons(code_t c) { return (constellation_t)ref[c & 63].cons; }

static int ref_healthy(const ephemeris_t *e, code_t c) {
  if (!e->valid) return 1;
  switch (ref_cons(c)) {
    case CONSTELLATION_GPS:
      return ref_index(e->ura) <= 15 && ref_health6(e->health_bits, c);
    case CONSTELLATION_GLO:
    case CONSTELLATION_BDS:
    case CONSTELLATION_GAL:
      return e->ura >= 0 && e->health_bits == 0;
    default:
      return e->health_bits == 0;
  }
}

static void any_eph(ephemeris_t *e) {
  spec_fill(e, sizeof *e, "e");
  e->ura = spec_any_f("ura");
}

void h_healthy(void) {
  ephemeris_t e;
  any_eph(&e);
  code_t c = any_code();
  LIB;
  bool h = ephemeris_healthy(&e, c);
  SPEC;
  spec_eq_u(h, ref_healthy(&e, c), "healthy");
  spec_cover(h && e.valid, "some healthy");
  spec_cover(!h, "some unhealthy");
}

void h_health_words(void) {
  u8 bits = spec_any_u(8, "bits"), mask = spec_any_u(8, "mask"), shi;
  u32 w3 = spec_any_u(32, "word 3");
  code_t c = (code_t)spec_any_i(8, "code");
  LIB;
  bool h6 = check_6bit_health_word(bits, c), h8 = check_8bit_health_word(bits, c), p25 = check_alma_page25_health_word(bits, c),
       dhi = check_nav_dhi(bits, mask);
  shm_gps_decode_shi_ephemeris(w3, &shi);
  SPEC;
  spec_eq_u(h6, ref_health6(bits, c), "6-bit word");
  spec_eq_u(h8, bits < 32 && ref_health6(bits, c), "8-bit word");
  spec_eq_u(p25, ref_health6(bits, c), "page 25 word");
  spec_eq_u(dhi, bits / 32 == 0 || ((mask >> (bits / 32)) & 1), "data health");
  spec_eq_u(shi, (w3 / 256) % 64, "health bits of subframe 1 word 3");
}

/* ---- status ---- */
static int ref_status(const ephemeris_t *e) {
  if (!e->valid) return EPH_INVALID;
  if (e->toe.wn == 0) return EPH_WN_EQ_0;
  if (e->fit_interval == 0) return EPH_FIT_INTERVAL_EQ_0;
  int code = e->sid.code;
  if (code < 0 || code >= CODE_COUNT) return EPH_INVALID_SID;
  if (!ref_healthy(e, (code_t)code)) return EPH_UNHEALTHY;
  u32 iodc = e->data.kepler.iodc, iode = e->data.kepler.iode;
  int ok = 1;
  switch (ref_cons((code_t)code)) {
    case CONSTELLATION_GPS:
    case CONSTELLATION_QZS:
      ok = iodc < 1024 && iode < 256 && iodc % 256 == iode % 256;
      break;
    case CONSTELLATION_BDS:
      ok = e->source == EPH_SOURCE_BDS_D1_D2_NAV ? iodc <= 240 && iode <= 240
                                                 : iodc < 1024 && iode < 256 && iodc % 256 == iode % 256;
      break;
    case CONSTELLATION_GAL:
      ok = iodc < 1024 && iode < 1024 && iodc == iode;
      break;
    case CONSTELLATION_GLO:
      ok = e->data.glo.iod < 128;
      break;
    default:
      break;
  }
  return ok ? EPH_VALID : EPH_INVALID_IOD;
}

void h_status(void) {
  ephemeris_t e;
  any_eph(&e);
  e.sid.code = (code_t)spec_any_i(8, "code");
  LIB;
  ephemeris_status_t s = get_ephemeris_status_t(&e), n = get_ephemeris_status_t(NULL);
  SPEC;
  spec_eq_u(s, ref_status(&e), "status");
  spec_eq_u(n, EPH_NULL, "status of null");
  spec_cover(s == EPH_VALID, "valid");
  spec_cover(s == EPH_INVALID_IOD, "iod");
}

/* ---- validity window ---- */
static gps_time_t any_time(const char *wn, const char *tow) {
  gps_time_t t;
  t.wn = (s16)spec_any_u(12, wn);
  t.tow = spec_any_d(tow);
  spec_assume(t.tow >= 0 && t.tow < W);
  return t;
}
static double tot(gps_time_t t) { return t.tow + W * t.wn; }

static code_t some_code(int cons) {
  int c = spec_any_u(1, "c");
  if (cons == 0) return c ? CODE_QZS_L1CA : CODE_GPS_L1CA;
  if (cons == 1) return c ? CODE_GAL_E1B : CODE_BDS2_B1;
  return cons == 2 ? CODE_GLO_L1OF : CODE_SBAS_L1CA;
}

/* the week of the reference time; the other weeks are enumerated around it */
#define BASE 2345

/* an ephemeris with status EPH_VALID, all unrelated fields arbitrary */
static void good(ephemeris_t *e, int cons, s16 base) {
  spec_fill(e, sizeof *e, "e");
  e->ura = 2.0f;
  e->valid = 1;
  e->health_bits = 0;
  e->source = EPH_SOURCE_BDS_D1_D2_NAV;
  e->sid.code = some_code(cons);
  if (cons == 2) {
    e->data.glo.iod = 7;
  } else if (cons < 2) {
    e->data.kepler.iodc = e->data.kepler.iode = 7;
  }
  e->fit_interval = spec_any_u(20, "fit");
  spec_assume(e->fit_interval >= 1 && e->fit_interval <= 604800);
  e->toe.wn = base;
  e->toe.tow = spec_any_d("toe.tow");
  spec_assume(e->toe.tow >= 0 && e->toe.tow < W);
}

/* cons: constellation class; unknown: 1 the week of t, 2 the week of toe, 3 both; d, dc: weeks between toe and t, toc */
static void window_at(s16 base, int cons, int unknown, int d, int dc) {
  spec_begin();
  SPEC;
  ephemeris_t e;
  good(&e, cons, base);
  gps_time_t t, toe = e.toe;
  t.tow = spec_any_d("t.tow");
  spec_assume(t.tow >= 0 && t.tow < W);
  if (unknown) {
    double x = e.toe.tow - t.tow;
    d = x > W / 2 ? 1 : x < -W / 2 ? -1 : 0;
  }
  t.wn = e.toe.wn + d;
  double lo = toe.tow, hi = lo, now = t.tow + W * (t.wn - toe.wn), clk = 0;
  if (cons != 1) {
    lo -= (double)(e.fit_interval / 2);
    hi += (double)(e.fit_interval / 2);
  } else {
    hi += (double)e.fit_interval;
  }
  int w = now >= lo && now <= hi;
  if (cons < 2) {
    double c = spec_any_d("toc.tow");
    spec_assume(c >= 0 && c < W);
    e.data.kepler.toc.tow = c;
    e.data.kepler.toc.wn = toe.wn + dc;
    int no = dc == 0 && spec_any_u(1, "no toc");
    if (no) e.data.kepler.toc.wn = 0;
    clk = c + W * dc;
    w = w && !no && clk >= lo && clk <= hi;
  }
  if (cons == 3) w = 1;
  if (unknown & 1) t.wn = -1;
  if (unknown & 2) e.toe.wn = -1;
  LIB;
  u8 v = ephemeris_valid(&e, &t);
  ephemeris_status_t s = ephemeris_valid_detailed(&e, &t);
  SPEC;
  spec_eq_u(v, w, "valid at the time");
  spec_eq_u(s, w ? EPH_VALID : EPH_TOO_OLD, "status at the time");
  spec_end();
}
static void window(int cons, int unknown, int d, int dc) { window_at(BASE, cons, unknown, d, dc); }
static const int ds[] = {-1024, -2, -1, 0, 1, 2, 1024};
/* every distance of the week of t, the clock week being that of toe */
static void times(int cons) {
  for (int i = 0; i < 7; i++) window(cons, 0, ds[i], 0);
}
/* every distance of the clock week */
static void clocks(int cons, int unknown) {
  for (int i = 0; i < 7; i++) window(cons, unknown, 0, ds[i]);
}
void h_window_gps(void) { times(0); }
void h_window_gps_toc(void) { clocks(0, 0); }
void h_window_gps_t(void) { clocks(0, 1); }
void h_window_gps_toe(void) { clocks(0, 2); }
void h_window_gal(void) { times(1); }
void h_window_gal_toc(void) { clocks(1, 0); }
void h_window_gal_t(void) { clocks(1, 1); }
void h_window_gal_toe(void) { clocks(1, 2); }
void h_window_glo(void) { times(2); }
void h_window_glo_t(void) { window(2, 1, 0, 0); }
void h_window_glo_toe(void) { window(2, 2, 0, 0), window(2, 3, 0, 0); }
/* other weeks, including the first ones after the epoch */
void h_window_weeks(void) {
  static const s16 bases[] = {2, 1024, 2047, 4096, 32000};
  for (int i = 0; i < 5; i++) {
    for (int d = -1; d <= 1; d++) window_at(bases[i], 2, 0, d, 0);
    window_at(bases[i], 2, 1, 0, 0);
  }
}
void h_window_sbas(void) {
  for (int i = 0; i < 7; i++) window(3, 0, ds[i], 0);
  window(3, 1, 0, 0);
  window(3, 2, 0, 0);
}

/* whatever is wrong with the ephemeris itself is reported whatever the time */
void h_window_status(void) {
  ephemeris_t e;
  any_eph(&e);
  gps_time_t t;
  e.toe.tow = 1000;
  e.toe.wn = spec_any_u(1, "w") ? BASE : 0;
  t.wn = e.toe.wn;
  t.tow = spec_any_d("t.tow");
  spec_assume(t.tow >= 0 && t.tow < W);
  e.fit_interval = spec_any_u(1, "fit") ? 3600 : 0;
  e.sid.code = (code_t)spec_any_i(8, "code");
  int st = ref_status(&e);
  int c = e.sid.code, cons = c < 0 || c >= CODE_COUNT ? -1 : ref[c & 63].cons;
  if (cons == GPS || cons == BDS || cons == QZS || cons == GAL) {
    e.data.kepler.toc = e.toe;
  }
  double x = t.tow - 1000;
  int w = cons == SBAS || (cons == BDS || cons == GAL ? x >= 0 && x <= 3600 : x >= -1800 && x <= 1800);
  LIB;
  u8 v = ephemeris_valid(&e, &t), none = ephemeris_valid(&e, NULL), null = ephemeris_valid(NULL, &t);
  ephemeris_status_t s = ephemeris_valid_detailed(&e, &t), n = ephemeris_valid_detailed(NULL, &t);
  SPEC;
  spec_eq_u(none, 0, "no time");
  spec_eq_u(null, 0, "no ephemeris");
  spec_eq_u(n, EPH_NULL, "status of no ephemeris");
  spec_eq_u(v, st == EPH_VALID && w, "usable");
  spec_eq_u(s, st == EPH_VALID && !w ? EPH_TOO_OLD : st, "status");
}

void h_params(void) {
  SPEC;
  gps_time_t b = any_time("b.wn", "b.tow"), e = any_time("e.wn", "e.tow"), c = any_time("c.wn", "c.tow"),
             t = any_time("t.wn", "t.tow");
  LIB;
  u8 v = ephemeris_params_valid(&b, &e, &c, &t), n = ephemeris_params_valid(&b, &e, NULL, &t);
  SPEC;
  int in_t = tot(t) - tot(b) >= 0 && tot(t) - tot(b) <= tot(e) - tot(b);
  int in_c = tot(c) - tot(b) >= 0 && tot(c) - tot(b) <= tot(e) - tot(b);
  spec_eq_u(n, in_t, "without clock time");
  spec_eq_u(v, in_t && c.wn != 0 && in_c, "with clock time");
}

/* ---- equality ---- */
static void any_fields(ephemeris_t *e, const char *n, int cons) {
  spec_fill(e, sizeof *e, n);
  e->toe.tow = spec_any_d("toe.tow");
  e->ura = spec_any_f("ura");
  if (cons == GLO) {
    double *f[] = {&e->data.glo.gamma, &e->data.glo.tau, &e->data.glo.d_tau};
    for (int i = 0; i < 3; i++) {
      *f[i] = spec_any_d("f");
      e->data.glo.pos[i] = spec_any_d("pos");
      e->data.glo.vel[i] = spec_any_d("vel");
      e->data.glo.acc[i] = spec_any_d("acc");
    }
  } else if (cons == SBAS) {
    for (int i = 0; i < 3; i++) {
      e->data.xyz.pos[i] = spec_any_d("pos");
      e->data.xyz.vel[i] = spec_any_d("vel");
      e->data.xyz.acc[i] = spec_any_d("acc");
    }
    e->data.xyz.a_gf0 = spec_any_d("a_gf0");
    e->data.xyz.a_gf1 = spec_any_d("a_gf1");
  } else {
    ephemeris_kepler_t *k = &e->data.kepler;
    double *f[] = {&k->crc, &k->crs, &k->cuc, &k->cus, &k->cic, &k->cis, &k->dn, &k->m0, &k->ecc, &k->sqrta, &k->omega0,
                   &k->omegadot, &k->w, &k->inc, &k->inc_dot, &k->af0, &k->af1, &k->af2, &k->toc.tow};
    for (int i = 0; i < 19; i++) *f[i] = spec_any_d("k");
    k->tgd.gps_s[0] = spec_any_f("tgd0");
    k->tgd.gps_s[1] = spec_any_f("tgd1");
  }
}
static int near(double a, double b) { return fabs(a - b) < 1e-12; }
static int nearf(float a, float b) { return fabsf(a - b) < 1e-12; }
#define N(f) near(a.f, b.f)
static void equal(int cons) {
  spec_begin();
  SPEC;
  ephemeris_t a, b;
  any_fields(&a, "a", cons);
  any_fields(&b, "b", cons);
  code_t ca = any_code();
  spec_assume(ref[ca & 63].cons == cons);
  a.sid.code = ca;
  b.sid.code = any_code();
  LIB;
  bool r = ephemeris_equal(&a, &b);
  SPEC;
  int w = a.sid.sat == b.sid.sat && a.sid.code == b.sid.code && a.valid == b.valid && a.health_bits == b.health_bits &&
          a.toe.wn == b.toe.wn && N(toe.tow);
  if (cons == GLO) {
    w = w && N(data.glo.gamma) && N(data.glo.tau) && N(data.glo.d_tau) && a.data.glo.fcn == b.data.glo.fcn &&
        a.data.glo.iod == b.data.glo.iod;
    for (int i = 0; i < 3; i++) w = w && N(data.glo.pos[i]) && N(data.glo.vel[i]) && N(data.glo.acc[i]);
  } else if (cons == SBAS) {
    w = w && N(data.xyz.a_gf0) && N(data.xyz.a_gf1);
    for (int i = 0; i < 3; i++) w = w && N(data.xyz.pos[i]) && N(data.xyz.vel[i]) && N(data.xyz.acc[i]);
  } else {
    const ephemeris_kepler_t *k = &a.data.kepler, *l = &b.data.kepler;
    w = w && N(data.kepler.crc) && N(data.kepler.crs) && N(data.kepler.cuc) && N(data.kepler.cus) && N(data.kepler.cic) &&
        N(data.kepler.cis) && N(data.kepler.dn) && N(data.kepler.m0) && N(data.kepler.ecc) && N(data.kepler.sqrta) &&
        N(data.kepler.omega0) && N(data.kepler.omegadot) && N(data.kepler.w) && N(data.kepler.inc) &&
        N(data.kepler.inc_dot) && N(data.kepler.af0) && N(data.kepler.af1) && N(data.kepler.af2) &&
        N(data.kepler.toc.tow) && k->toc.wn == l->toc.wn && k->iodc == l->iodc && k->iode == l->iode &&
        nearf(k->tgd.gps_s[0], l->tgd.gps_s[0]) && nearf(k->tgd.gps_s[1], l->tgd.gps_s[1]);
  }
  spec_eq_u(r, w, "equal");
  spec_cover(r, "equal");
  spec_cover(!r, "different");
  spec_end();
}
void h_equal(void) {
  for (int c = 0; c < 6; c++) equal(c);
}

/* ---- group delay ---- */
static int is5(int c) {
  return c == CODE_GPS_L5I || c == CODE_GPS_L5Q || c == CODE_GPS_L5X || c == CODE_QZS_L5I || c == CODE_QZS_L5Q ||
         c == CODE_QZS_L5X || c == CODE_GAL_E5I || c == CODE_GAL_E5Q || c == CODE_GAL_E5X;
}
void h_tgd(void) {
  for (int c = 0; c < CODE_COUNT; c++) {
    int cons = ref[c].cons;
    if (cons == SBAS) continue;
    spec_begin();
    SPEC;
    ephemeris_t e, e0;
    spec_fill(&e, sizeof e, "e");
    e.sid.code = any_code();
    spec_assume(ref[e.sid.code & 63].cons == cons);
    gnss_signal_t sid = {.sat = (u16)spec_any_u(16, "sat"), .code = (code_t)c};
    float t0 = 0, t1 = 0, got = 99;
    double dt = 0;
    if (cons == GLO) {
      e.data.glo.d_tau = dt = spec_any_d("d_tau");
    } else {
      e.data.kepler.tgd.gps_s[0] = t0 = spec_any_f("tgd0");
      e.data.kepler.tgd.gps_s[1] = t1 = spec_any_f("tgd1");
    }
    e0 = e;
    LIB;
    s8 r = get_tgd_correction(&e, &sid, &got);
    SPEC;
    double k = 1540 * 1.023e6 / ref[c].freq;
    k *= k;
    float want = 99;
    int ok = 1;
    switch (cons) {
      case GPS:
      case QZS: want = (float)((double)(is5(c) ? t1 : t0) * k); break;
      case GAL: want = (float)((double)(is5(c) ? t0 : t1) * k); break;
      case BDS:
        want = c == CODE_BDS2_B1 || c == CODE_BDS3_B1CI                               ? t0
               : c == CODE_BDS3_B3I || c == CODE_BDS3_B3Q || c == CODE_BDS3_B3X ? 0.0f
                                                                                : t1;
        break;
      default:
        if (c == CODE_GLO_L1OF || c == CODE_GLO_L1P)
          want = 0;
        else if (c == CODE_GLO_L2OF || c == CODE_GLO_L2P)
          want = (float)dt;
        else
          ok = 0;
    }
    spec_eq_i(r, ok ? 0 : -1, "verdict");
    spec_eq_d(got, want, "group delay");
    spec_same_bytes(&e, &e0, sizeof e, "ephemeris untouched");
    spec_end();
  }
}

/* ---- BDS-2 issue-of-data checksum ---- */
u32 crc24q(const u8 *buf, u32 len, u32 crc);
static int put(u8 *b, int at, int n, s64 v) {
  for (int i = 0; i < n; i++) {
    int p = at + i;
    b[p / 8] = (u8)(b[p / 8] | (((v >> (n - 1 - i)) & 1) << (7 - p % 8)));
  }
  return at + n;
}
void h_bds_crc(void) {
  ephemeris_t e;
  any_fields(&e, "e", BDS);
  e.sid.code = CODE_BDS2_B1;
  const ephemeris_kepler_t *k = &e.data.kepler;
  u8 b[52] = {0};
  LIB;
  u32 got = get_bds2_iod_crc(&e);
  SPEC;
  int n = 0;
  n = put(b, n, 14, (s32)(k->inc_dot / M_PI * p2(43)));
  n = put(b, n, 11, (s32)(k->af2 * p2(66)));
  n = put(b, n, 22, (s32)(k->af1 * p2(50)));
  n = put(b, n, 24, (s32)(k->af0 * p2(33)));
  n = put(b, n, 18, (s32)(k->crs * p2(6)));
  n = put(b, n, 16, (s32)(k->dn / M_PI * p2(43)));
  n = put(b, n, 32, (s32)(k->m0 / M_PI * p2(31)));
  n = put(b, n, 18, (s32)(k->cuc * p2(31)));
  n = put(b, n, 32, (u32)(k->ecc * p2(33)));
  n = put(b, n, 18, (s32)(k->cus * p2(31)));
  n = put(b, n, 32, (u32)(k->sqrta * p2(19)));
  n = put(b, n, 18, (s32)(k->cic * p2(31)));
  n = put(b, n, 32, (s32)(k->omega0 / M_PI * p2(31)));
  n = put(b, n, 18, (s32)(k->cis * p2(31)));
  n = put(b, n, 32, (s32)(k->inc / M_PI * p2(31)));
  n = put(b, n, 18, (s32)(k->crc * p2(6)));
  n = put(b, n, 32, (s32)(k->w / M_PI * p2(31)));
  n = put(b, n, 24, (s32)(k->omegadot / M_PI * p2(43)));
  spec_eq_u(got, crc24q(b, 52, 0), "checksum");
}
