#include <swiftnav/ephemeris.h>
#include "util.h"
#define PI_GPS 3.1415926535898

/* Galileo OS SIS ICD: field at bit offset pos (0-based, MSB first) of a 128-bit I/NAV word */
static uint64_t F(const u8 *p, int pos, int len) {
  uint64_t r = 0;
  for (int i = pos; i < pos + len; i++) r = r * 2 + ((p[i / 8] & (0x80 >> (i % 8))) != 0);
  return r;
}
static bool hs_usable(int hs) { return hs == 0 || hs == 2; }
/* week of a time of week t that lies within half a week of (wn, tow) */
static int near_week(int wn, double tow, double t) {
  if (t - tow > 302400) return wn - 1;
  if (t - tow < -302400) return wn + 1;
  return wn;
}

void h_gal_inav(void) {
  u8 pg[5][16];
  ephemeris_t e;
  spec_fill(pg, sizeof pg, "page");
  spec_fill(&e, sizeof e, "e0");
  gnss_signal_t sid0 = e.sid;
  LIB;
  bool ok = decode_gal_ephemeris_safe((const u8(*)[16])pg, &e);
  SPEC;
  const u8 *w1 = pg[0], *w2 = pg[1], *w3 = pg[2], *w4 = pg[3], *w5 = pg[4];
  ephemeris_kepler_t *k = &e.data.kepler;
  /* word type 1: type(6) IODnav(10) t0e(14) M0(32) e(32) sqrtA(32) */
  spec_eq_u(k->iode, F(w1, 6, 10), "iode");
  spec_eq_u(k->iodc, F(w1, 6, 10), "iodc");
  double toe = F(w1, 16, 14) * 60.0;
  spec_eq_d(e.toe.tow, toe, "toe.tow");
  spec_eq_d(k->m0, sx(F(w1, 30, 32), 32) * p2(-31) * PI_GPS, "m0");
  spec_eq_d(k->ecc, F(w1, 62, 32) * p2(-33), "ecc");
  spec_eq_d(k->sqrta, F(w1, 94, 32) * p2(-19), "sqrta");
  /* word type 2: type(6) IODnav(10) omega0(32) i0(32) omega(32) idot(14) */
  spec_eq_d(k->omega0, sx(F(w2, 16, 32), 32) * p2(-31) * PI_GPS, "omega0");
  spec_eq_d(k->inc, sx(F(w2, 48, 32), 32) * p2(-31) * PI_GPS, "inc");
  spec_eq_d(k->w, sx(F(w2, 80, 32), 32) * p2(-31) * PI_GPS, "w");
  spec_eq_d(k->inc_dot, sx(F(w2, 112, 14), 14) * p2(-43) * PI_GPS, "inc_dot");
  /* word type 3: type(6) IODnav(10) omegadot(24) dn(16) cuc cus crc crs(16) sisa(8) */
  spec_eq_d(k->omegadot, sx(F(w3, 16, 24), 24) * p2(-43) * PI_GPS, "omegadot");
  spec_eq_d(k->dn, sx(F(w3, 40, 16), 16) * p2(-43) * PI_GPS, "dn");
  spec_eq_d(k->cuc, sx(F(w3, 56, 16), 16) * p2(-29), "cuc");
  spec_eq_d(k->cus, sx(F(w3, 72, 16), 16) * p2(-29), "cus");
  spec_eq_d(k->crc, sx(F(w3, 88, 16), 16) * p2(-5), "crc");
  spec_eq_d(k->crs, sx(F(w3, 104, 16), 16) * p2(-5), "crs");
  /* word type 4: type(6) IODnav(10) SVID(6) cic(16) cis(16) t0c(14) af0(31) af1(21) af2(6) */
  spec_eq_u(e.sid.sat, F(w4, 16, 6), "sid.sat");
  spec_eq_i(e.sid.code, sid0.code, "sid.code untouched");
  spec_eq_d(k->cic, sx(F(w4, 22, 16), 16) * p2(-29), "cic");
  spec_eq_d(k->cis, sx(F(w4, 38, 16), 16) * p2(-29), "cis");
  double toc = F(w4, 54, 14) * 60.0;
  spec_eq_d(k->toc.tow, toc, "toc.tow");
  spec_eq_d(k->af0, sx(F(w4, 68, 31), 31) * p2(-34), "af0");
  spec_eq_d(k->af1, sx(F(w4, 99, 21), 21) * p2(-46), "af1");
  spec_eq_d(k->af2, sx(F(w4, 120, 6), 6) * p2(-59), "af2");
  /* word type 5: type(6) ai0(11) ai1(11) ai2(14) region flags(5) BGD E1E5a(10) BGD E1E5b(10) E5bHS(2) E1bHS(2)
     E5bDVS E1bDVS WN(12) TOW(20) */
  spec_eq_d(k->tgd.gal_s[0], (float)(sx(F(w5, 47, 10), 10) * p2(-32)), "bgd e5a");
  spec_eq_d(k->tgd.gal_s[1], (float)(sx(F(w5, 57, 10), 10) * p2(-32)), "bgd e5b");
  spec_eq_u(e.fit_interval, 4 * 3600, "fit_interval");
  bool hs = hs_usable(F(w5, 67, 2)) && hs_usable(F(w5, 69, 2));
  int wn = (int)F(w5, 73, 12) + 1024;
  double tow = (double)F(w5, 85, 20);
  int twn = near_week(wn, tow, toe), cwn = near_week(wn, tow, toc);
  bool toe_ok = toe < 604800, toc_ok = toc < 604800;
  spec_eq_u(ok, toe_ok && toc_ok, "accepted iff toe and toc are times of week");
  if (ok) {
    spec_eq_i(e.toe.wn, twn, "toe.wn");
    spec_eq_i(k->toc.wn, cwn, "toc.wn");
    spec_eq_u(e.valid, hs, "valid iff E5b and E1-B usable");
    spec_eq_u(e.source, EPH_SOURCE_GAL_INAV, "source");
  }
  spec_cover(ok && hs, "accepted");
}

/* SISA index -> metres, Galileo OS SIS ICD table: evaluated for each of the 256 indices */
void h_sisa(void) {
  for (int i = 0; i < 256; i++) {
    LIB;
    float m = decode_sisa_index((u8)i);
    SPEC;
    double cm; /* centimetres */
    if (i < 50) cm = i;
    else if (i < 75) cm = 50 + 2 * (i - 50);
    else if (i < 100) cm = 100 + 4 * (i - 75);
    else if (i < 126) cm = 200 + 16 * (i - 100);
    else if (i < 255) cm = 600;
    else cm = -100;
    spec_check(fabs(m - cm / 100.0) < 1e-6, "sisa metres");
  }
}
void h_gal_ura(void) {
  u8 pg[5][16];
  ephemeris_t e;
  spec_fill(pg, sizeof pg, "page");
  spec_fill(&e, sizeof e, "e0");
  LIB;
  decode_gal_ephemeris_safe((const u8(*)[16])pg, &e);
  spec_eq_d(e.ura, decode_sisa_index((u8)F(pg[2], 120, 8)), "ura = sisa table");
}
