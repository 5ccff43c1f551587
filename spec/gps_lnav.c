#include <swiftnav/ephemeris.h>
#include "util.h"
#define PI_GPS 3.1415926535898

/* bit `first` (1-based, MSB first) of word `word` (3..10), len bits, of the 24 data bits of a 30-bit word */
static uint64_t F(const u32 *w, int word, int first, int len) {
  uint64_t r = 0;
  for (int i = 0; i < len; i++) r = r * 2 + ((w[word - 3] >> (30 - (first + i))) & 1);
  return r;
}
static uint64_t cat(uint64_t hi, uint64_t lo, int nlo) { return (hi << nlo) | lo; }

static u32 fit_hours(int flag, u32 iodc) {
  if (!flag) return 4;
  if (iodc >= 240 && iodc <= 247) return 8;
  if ((iodc >= 248 && iodc <= 255) || iodc == 496) return 14;
  if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) return 26;
  if (iodc >= 504 && iodc <= 510) return 50;
  if (iodc == 511 || (iodc >= 752 && iodc <= 756)) return 74;
  if (iodc == 757) return 98;
  return 6;
}
static float ura_m(int idx) {
  switch (idx) {
    case 0: return 2.0f;
    case 1: return 2.8f;
    case 2: return 4.0f;
    case 3: return 5.7f;
    case 4: return 8.0f;
    case 5: return 11.3f;
    case 6: return 16.0f;
    case 15: return 6144.0f;
    default: return (float)(1 << (idx - 2));
  }
}

void h_gps_lnav(void) {
  u32 fw[3][8];
  ephemeris_t e;
  spec_fill(fw, sizeof fw, "frame");
  spec_fill(&e, sizeof e, "e0");
  e.sid.sat = (u16)spec_any_u(8, "sat");
  e.sid.code = spec_any_u(1, "qzs") ? CODE_QZS_L1CA : CODE_GPS_L1CA;
  gnss_signal_t sid0 = e.sid;
  double tot = spec_any_d("tot_tow");
  spec_assume(tot >= 0 && tot < 604800);
  LIB;
  decode_ephemeris((const u32(*)[8])fw, &e, tot);
  SPEC;
  const u32 *a = fw[0], *b = fw[1], *c = fw[2];
  ephemeris_kepler_t *k = &e.data.kepler;
  spec_eq_d(k->af2, sx(F(a, 9, 1, 8), 8) * p2(-55), "af2");
  spec_eq_d(k->af1, sx(F(a, 9, 9, 16), 16) * p2(-43), "af1");
  spec_eq_d(k->af0, sx(F(a, 10, 1, 22), 22) * p2(-31), "af0");
  spec_eq_d(k->tgd.gps_s[0], (float)(sx(F(a, 7, 17, 8), 8) * p2(-31)), "tgd");
  spec_eq_d(k->tgd.gps_s[1], 0, "tgd[1]");
  spec_eq_d(k->crs, sx(F(b, 3, 9, 16), 16) * p2(-5), "crs");
  spec_eq_d(k->dn, sx(F(b, 4, 1, 16), 16) * p2(-43) * PI_GPS, "dn");
  spec_eq_d(k->m0, sx(cat(F(b, 4, 17, 8), F(b, 5, 1, 24), 24), 32) * p2(-31) * PI_GPS, "m0");
  spec_eq_d(k->cuc, sx(F(b, 6, 1, 16), 16) * p2(-29), "cuc");
  spec_eq_d(k->ecc, cat(F(b, 6, 17, 8), F(b, 7, 1, 24), 24) * p2(-33), "ecc");
  spec_eq_d(k->cus, sx(F(b, 8, 1, 16), 16) * p2(-29), "cus");
  spec_eq_d(k->sqrta, cat(F(b, 8, 17, 8), F(b, 9, 1, 24), 24) * p2(-19), "sqrta");
  spec_eq_d(k->cic, sx(F(c, 3, 1, 16), 16) * p2(-29), "cic");
  spec_eq_d(k->omega0, sx(cat(F(c, 3, 17, 8), F(c, 4, 1, 24), 24), 32) * p2(-31) * PI_GPS, "omega0");
  spec_eq_d(k->cis, sx(F(c, 5, 1, 16), 16) * p2(-29), "cis");
  spec_eq_d(k->inc, sx(cat(F(c, 5, 17, 8), F(c, 6, 1, 24), 24), 32) * p2(-31) * PI_GPS, "inc");
  spec_eq_d(k->crc, sx(F(c, 7, 1, 16), 16) * p2(-5), "crc");
  spec_eq_d(k->w, sx(cat(F(c, 7, 17, 8), F(c, 8, 1, 24), 24), 32) * p2(-31) * PI_GPS, "w");
  spec_eq_d(k->omegadot, sx(F(c, 9, 1, 24), 24) * p2(-43) * PI_GPS, "omegadot");
  spec_eq_d(k->inc_dot, sx(F(c, 10, 9, 14), 14) * p2(-43) * PI_GPS, "inc_dot");
  u32 iodc = cat(F(a, 3, 23, 2), F(a, 8, 1, 8), 8);
  u32 iode2 = F(b, 3, 1, 8), iode3 = F(c, 10, 1, 8);
  spec_eq_u(k->iodc, iodc, "iodc");
  spec_eq_u(k->iode, iode3, "iode");
  spec_eq_u(e.health_bits, F(a, 3, 17, 6), "health_bits");
  spec_eq_d(e.ura, ura_m(F(a, 3, 13, 4)), "ura");
  spec_eq_u(e.fit_interval, fit_hours(F(b, 10, 17, 1), iodc) * 3600, "fit_interval");
  spec_eq_u(e.source, EPH_SOURCE_GPS_LNAV, "source");
  spec_eq_u(e.sid.sat, sid0.sat, "sid.sat");
  spec_eq_u(e.sid.code, sid0.code, "sid.code");
  double toe = F(b, 10, 1, 16) * 16.0;
  spec_eq_d(e.toe.tow, toe, "toe.tow");
  spec_eq_d(k->toc.tow, F(a, 8, 9, 16) * 16.0, "toc.tow");
  bool toe_ok = toe < 604800;
  int wn = F(a, 3, 1, 10);
  while (wn < GPS_WEEK_REFERENCE) wn += 1024;
  if (toe_ok) {
    if (toe - tot > 302400) wn -= 1;
    if (toe - tot < -302400) wn += 1;
  }
  spec_eq_i(e.toe.wn, wn, "toe.wn");
  spec_eq_i(k->toc.wn, wn, "toc.wn");
  spec_eq_u(e.valid, toe_ok && iode2 == iode3 && iode3 == (iodc & 255), "valid");
}
