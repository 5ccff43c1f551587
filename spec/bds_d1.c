#include <swiftnav/ephemeris.h>
#include <swiftnav/ionosphere.h>
#include "util.h"
#define PI_GPS 3.1415926535898

/* BDS-SIS-ICD: bits first..last (1 = first transmitted, MSB) of word w (1..10) of a subframe */
static uint64_t F(const u32 *sf, int w, int first, int last) {
  uint64_t r = 0;
  for (int i = first; i <= last; i++) r = r * 2 + ((sf[w - 1] >> (30 - i)) & 1);
  return r;
}
/* field split over two words */
static uint64_t F2(const u32 *sf, int w, int f, int l, int w2, int f2, int l2) {
  return (F(sf, w, f, l) << (l2 - f2 + 1)) | F(sf, w2, f2, l2);
}

void h_bds_d1(void) {
  u32 wd[3][10];
  ephemeris_t e;
  gnss_signal_t sid;
  spec_fill(wd, sizeof wd, "subframe");
  spec_fill(&e, sizeof e, "e0");
  spec_fill(&sid, sizeof sid, "sid");
  ephemeris_t e0 = e;
  LIB;
  decode_bds_d1_ephemeris((const u32(*)[10])wd, sid, &e);
  SPEC;
  const u32 *a = wd[0], *b = wd[1], *c = wd[2];
  ephemeris_kepler_t *k = &e.data.kepler;
  spec_eq_u(e.sid.sat, sid.sat, "sid.sat");
  spec_eq_i(e.sid.code, sid.code, "sid.code");
  spec_eq_u(e.source, EPH_SOURCE_BDS_D1_D2_NAV, "source");
  spec_eq_u(e.health_bits, F(a, 2, 13, 13), "health_bits");
  int urai = F(a, 2, 19, 22);
  static const float ura[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, -1.0f};
  spec_eq_d(e.ura, ura[urai], "ura");
  int wn = F(a, 3, 1, 13);
  spec_eq_i(e.toe.wn, wn + 1356, "toe.wn");
  spec_eq_i(k->toc.wn, wn + 1356, "toc.wn");
  u32 toc = F2(a, 3, 14, 22, 4, 1, 8);
  spec_eq_d(k->toc.tow, toc * 8.0, "toc.tow");
  spec_eq_d(k->tgd.bds_s[0], (float)sx(F(a, 4, 9, 18), 10) * 1e-10f, "tgd1");
  spec_eq_d(k->tgd.bds_s[1], (float)sx(F2(a, 4, 19, 22, 5, 1, 6), 10) * 1e-10f, "tgd2");
  spec_eq_d(k->af2, sx(F(a, 8, 5, 15), 11) * p2(-66), "af2");
  spec_eq_d(k->af0, sx(F2(a, 8, 16, 22, 9, 1, 17), 24) * p2(-33), "af0");
  spec_eq_d(k->af1, sx(F2(a, 9, 18, 22, 10, 1, 17), 22) * p2(-50), "af1");
  spec_eq_d(k->dn, sx(F2(b, 2, 13, 22, 3, 1, 6), 16) * p2(-43) * PI_GPS, "dn");
  spec_eq_d(k->cuc, sx(F2(b, 3, 7, 22, 4, 1, 2), 18) * p2(-31), "cuc");
  spec_eq_d(k->m0, sx(F2(b, 4, 3, 22, 5, 1, 12), 32) * p2(-31) * PI_GPS, "m0");
  spec_eq_d(k->ecc, F2(b, 5, 13, 22, 6, 1, 22) * p2(-33), "ecc");
  spec_eq_d(k->cus, sx(F(b, 7, 1, 18), 18) * p2(-31), "cus");
  spec_eq_d(k->crc, sx(F2(b, 7, 19, 22, 8, 1, 14), 18) * p2(-6), "crc");
  spec_eq_d(k->crs, sx(F2(b, 8, 15, 22, 9, 1, 10), 18) * p2(-6), "crs");
  spec_eq_d(k->sqrta, F2(b, 9, 11, 22, 10, 1, 20) * p2(-19), "sqrta");
  u32 toe = (F(b, 10, 21, 22) << 15) | F2(c, 2, 13, 22, 3, 1, 5);
  spec_eq_d(e.toe.tow, toe * 8.0, "toe.tow");
  spec_eq_d(k->inc, sx(F2(c, 3, 6, 22, 4, 1, 15), 32) * p2(-31) * PI_GPS, "inc");
  spec_eq_d(k->cic, sx(F2(c, 4, 16, 22, 5, 1, 11), 18) * p2(-31), "cic");
  spec_eq_d(k->omegadot, sx(F2(c, 5, 12, 22, 6, 1, 13), 24) * p2(-43) * PI_GPS, "omegadot");
  spec_eq_d(k->cis, sx(F2(c, 6, 14, 22, 7, 1, 9), 18) * p2(-31), "cis");
  spec_eq_d(k->inc_dot, sx(F2(c, 7, 10, 22, 8, 1, 1), 14) * p2(-43) * PI_GPS, "inc_dot");
  spec_eq_d(k->omega0, sx(F2(c, 8, 2, 22, 9, 1, 11), 32) * p2(-31) * PI_GPS, "omega0");
  spec_eq_d(k->w, sx(F2(c, 9, 12, 22, 10, 1, 21), 32) * p2(-31) * PI_GPS, "w");
  spec_eq_u(k->iodc, (toc / 90) % 240, "iodc = (toc[s]/720) mod 240");
  spec_eq_u(k->iode, (toe / 90) % 240, "iode = (toe[s]/720) mod 240");
  spec_eq_u(e.valid, e0.valid, "valid untouched");
  spec_eq_u(e.fit_interval, e0.fit_interval, "fit_interval untouched");
}

void h_bds_iono(void) {
  u32 w[10];
  ionosphere_t io;
  spec_fill(w, sizeof w, "subframe1");
  spec_fill(&io, sizeof io, "io0");
  LIB;
  decode_bds_d1_iono(w, &io);
  SPEC;
  spec_eq_i(io.toa.wn, F(w, 3, 1, 13) + 1356, "toa.wn");
  spec_eq_d(io.a0, sx(F(w, 5, 7, 14), 8) * p2(-30), "a0");
  spec_eq_d(io.a1, sx(F(w, 5, 15, 22), 8) * p2(-27), "a1");
  spec_eq_d(io.a2, sx(F(w, 6, 1, 8), 8) * p2(-24), "a2");
  spec_eq_d(io.a3, sx(F(w, 6, 9, 16), 8) * p2(-24), "a3");
  spec_eq_d(io.b0, sx(F2(w, 6, 17, 22, 7, 1, 2), 8) * p2(11), "b0");
  spec_eq_d(io.b1, sx(F(w, 7, 3, 10), 8) * p2(14), "b1");
  spec_eq_d(io.b2, sx(F(w, 7, 11, 18), 8) * p2(16), "b2");
  spec_eq_d(io.b3, sx(F2(w, 7, 19, 22, 8, 1, 4), 8) * p2(16), "b3");
}
