#include <swiftnav/decode_glo.h>
#include <swiftnav/ephemeris.h>
#include "util.h"

/* GLONASS ICD: bit n (1..85) of a navigation string; bit 1 is the last transmitted */
static uint64_t G(const glo_string_t *s, int lsb, int len) {
  uint64_t r = 0;
  for (int i = lsb + len - 1; i >= lsb; i--) r = r * 2 + ((s->word[(i - 1) / 32] >> ((i - 1) % 32)) & 1);
  return r;
}
/* sign-magnitude: magnitude at lsb (len bits), sign bit just above */
static double sm(const glo_string_t *s, int lsb, int len) {
  double m = (double)G(s, lsb, len);
  return G(s, lsb + len, 1) ? -m : m;
}

/* GLONASS ICD 5.1 section 4.7: the data bits 9..85 occupy the positions 3,5,6,7,9,... (no powers of two) of a
   Hamming word; check bit i covers the positions whose binary weight 2^(i-1) is set; C_sum is the parity of all 85. */
static int ham(const glo_string_t *s) {
  int c[7], csum = 0, n = 0, k = 0, c7 = 0;
  for (int i = 0; i < 7; i++) c[i] = (int)G(s, i + 1, 1);
  int pos = 3;
  for (int b = 9; b <= 85; b++) {
    int v = (int)G(s, b, 1);
    for (int i = 0; i < 7; i++)
      if (pos >> i & 1) c[i] ^= v;
    pos++;
    if ((pos & (pos - 1)) == 0) pos++;
  }
  for (int b = 1; b <= 85; b++) csum ^= (int)G(s, b, 1);
  for (int i = 0; i < 7; i++)
    if (c[i]) {
      n++;
      k = i + 1;
      c7 |= 1 << i;
    }
  if (n == 0) return csum ? -1 : 0;
  if (!csum) return -1;
  if (n == 1) return 0;
  int corr = c7 + 8 - k;
  return corr > 85 ? -1 : corr;
}

void h_ham(void) {
  glo_string_t s;
  spec_fill(&s, sizeof s, "string");
  s.word[2] &= 0x1fffff; /* 85 bits; the padding is zero */
  LIB;
  s8 r = error_detection_glo(&s);
  SPEC;
  spec_eq_i(r, ham(&s), "verdict");
  spec_check(r == -1 || r == 0 || (r >= 9 && r <= 85), "verdict range");
}

void h_extract(void) {
  glo_string_t s;
  spec_fill(&s, sizeof s, "string");
  s.word[2] &= 0x1fffff; /* 85 bits; the padding is zero */
  for (int b = 1; b <= 85; b++)
    for (int n = 1; n <= 32 && b + n <= 86; n++) {
      LIB;
      u32 v = extract_word_glo(&s, (u16)b, (u8)n);
      SPEC;
      spec_eq_u(v, G(&s, b, n), "extract");
    }
}

static bool common(const glo_string_t *s, int m) { return ham(s) == 0 && G(s, 81, 4) == (uint64_t)m; }
static bool axis_ok(const glo_string_t *s) {
  return fabs(sm(s, 9, 26) / 2048.0) <= 2.7e4 && fabs(sm(s, 41, 23) / 1048576.0) <= 4.3 && fabs(sm(s, 36, 4) * p2(-30)) <= 6.2e-9;
}
static void axis(const glo_string_t *s, const ephemeris_t *e, int i) {
  spec_eq_d(e->data.glo.pos[i], sm(s, 9, 26) / 2048.0 * 1000.0, "pos");
  spec_eq_d(e->data.glo.vel[i], sm(s, 41, 23) / 1048576.0 * 1000.0, "vel");
  spec_eq_d(e->data.glo.acc[i], sm(s, 36, 4) * p2(-30) * 1000.0, "acc");
}

void h_str1(void) {
  glo_string_t s;
  ephemeris_t e;
  glo_time_t tk;
  spec_fill(&s, sizeof s, "string");
  s.word[2] &= 0x1fffff; /* 85 bits; the padding is zero */
  spec_fill(&e, sizeof e, "e0");
  u32 fit0 = e.fit_interval;
  LIB;
  bool ok = decode_glo_string_1(&s, &e, &tk);
  SPEC;
  int h = G(&s, 72, 5), mi = G(&s, 66, 6);
  spec_eq_u(ok, common(&s, 1) && axis_ok(&s) && h <= 23 && mi <= 59, "accepted");
  if (ok) {
    axis(&s, &e, 0);
    spec_eq_u(tk.h, h, "tk.h");
    spec_eq_u(tk.m, mi, "tk.m");
    spec_eq_d(tk.s, G(&s, 65, 1) ? 30.0 : 0.0, "tk.s");
    int p1 = G(&s, 77, 2);
    u32 fit = p1 ? (p1 * 15 + 15 + 10) * 60 : fit0 ? fit0 : 70 * 60;
    spec_eq_u(e.fit_interval, fit, "fit_interval");
  }
  spec_cover(ok, "accepted");
}
void h_str2(void) {
  glo_string_t s;
  ephemeris_t e;
  glo_time_t toe;
  spec_fill(&s, sizeof s, "string");
  s.word[2] &= 0x1fffff; /* 85 bits; the padding is zero */
  spec_fill(&e, sizeof e, "e0");
  u8 h0 = e.health_bits;
  LIB;
  bool ok = decode_glo_string_2(&s, &e, &toe);
  SPEC;
  int tb = G(&s, 70, 7); /* quarter hours */
  spec_eq_u(ok, common(&s, 2) && axis_ok(&s) && tb >= 1 && tb <= 95, "accepted");
  if (ok) {
    axis(&s, &e, 1);
    spec_eq_u(toe.h, tb / 4, "toe.h");
    spec_eq_u(toe.m, tb % 4 * 15, "toe.m");
    spec_eq_d(toe.s, 0, "toe.s");
    spec_eq_u(e.data.glo.iod, (tb * 900) & 0x7f, "iod");
    spec_eq_u(e.health_bits, h0 | G(&s, 80, 1), "health_bits");
  }
  spec_cover(ok, "accepted");
}
void h_str3(void) {
  glo_string_t s;
  ephemeris_t e;
  glo_time_t toe;
  spec_fill(&s, sizeof s, "string");
  s.word[2] &= 0x1fffff; /* 85 bits; the padding is zero */
  spec_fill(&e, sizeof e, "e0");
  u8 h0 = e.health_bits;
  LIB;
  bool ok = decode_glo_string_3(&s, &e, &toe);
  SPEC;
  spec_eq_u(ok, common(&s, 3) && axis_ok(&s) && fabs(sm(&s, 69, 10)) <= 1024.0, "accepted");
  if (ok) {
    axis(&s, &e, 2);
    spec_eq_d(e.data.glo.gamma, sm(&s, 69, 10) * p2(-40), "gamma");
    spec_eq_u(e.health_bits, h0 | G(&s, 65, 1), "health_bits");
  }
  spec_cover(ok, "accepted");
}
void h_str4(void) {
  glo_string_t s;
  ephemeris_t e;
  glo_time_t tk, toe;
  u8 age;
  spec_fill(&s, sizeof s, "string");
  s.word[2] &= 0x1fffff; /* 85 bits; the padding is zero */
  spec_fill(&e, sizeof e, "e0");
  LIB;
  bool ok = decode_glo_string_4(&s, &e, &tk, &toe, &age);
  SPEC;
  double tau = sm(&s, 59, 21) * p2(-30), dtau = sm(&s, 54, 4) * p2(-30);
  int n = G(&s, 11, 5), nt = G(&s, 16, 11);
  spec_eq_u(ok, common(&s, 4) && fabs(tau) <= p2(-9) && fabs(dtau) <= 13.97e-9 && n >= 1 && n <= 28 && nt <= 1461, "accepted");
  static const float ft[16] = {1, 2, 2.5f, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, -1.0f};
  if (ok) {
    spec_eq_d(e.data.glo.tau, tau, "tau");
    spec_eq_d(e.data.glo.d_tau, dtau, "d_tau");
    spec_eq_u(age, G(&s, 49, 5), "age");
    spec_eq_u(e.sid.sat, n, "sid.sat");
    spec_eq_d(e.ura, ft[G(&s, 30, 4)], "ura");
    spec_eq_u(tk.nt, nt, "tk.nt");
    spec_eq_u(toe.nt, nt, "toe.nt");
  }
  spec_cover(ok, "accepted");
}
void h_str5(void) {
  glo_string_t s;
  ephemeris_t e;
  glo_time_t tk, toe;
  float tg;
  spec_fill(&s, sizeof s, "string");
  s.word[2] &= 0x1fffff; /* 85 bits; the padding is zero */
  spec_fill(&e, sizeof e, "e0");
  LIB;
  bool ok = decode_glo_string_5(&s, &e, &tk, &toe, &tg);
  SPEC;
  double t = sm(&s, 10, 21) * p2(-30);
  int n4 = G(&s, 32, 5);
  spec_eq_u(ok, common(&s, 5) && n4 != 0 && fabs(t) <= 1.9e-3, "accepted");
  if (ok) {
    spec_eq_u(tk.n4, n4, "tk.n4");
    spec_eq_u(toe.n4, n4, "toe.n4");
    spec_eq_d(tg, (float)t, "tau_gps");
  }
  spec_cover(ok, "accepted");
}

/* ---- assembly of the five strings; glo2gps is replaced by a recording stand-in ---- */
static glo_time_t asked;
static const utc_params_t *asked_utc;
static int asked_n;
gps_time_t stub_glo2gps(const glo_time_t *t, const utc_params_t *u) {
  gps_time_t g;
  asked = *t;
  asked_utc = u;
  asked_n++;
  g.wn = 2000;
  g.tow = 4321;
  return g;
}
/* one string is arbitrary, each of the others either a correct one or one with a wrong string number */
static void assemble(int k) {
  static const u32 good[5][3] = {{0xc3a850b5, 0x96999b05, 0x010743}, {0xd9c15f66, 0xa5256204, 0x021760},
                                 {0x6d0e3123, 0x9d60899a, 0x038026}, {0x00344918, 0x1cc00000, 0x04865d},
                                 {0x40000895, 0x3, 0x050d10}};
  SPEC;
  glo_string_t s[5];
  ephemeris_t e, r;
  utc_params_t u, *up = spec_any_u(1, "params") ? &u : NULL;
  glo_time_t tk, toe;
  u8 age;
  float tg;
  spec_fill(&s, sizeof s, "strings");
  spec_fill(&e, sizeof e, "e0");
  spec_fill(&u, sizeof u, "u");
  gnss_signal_t sid;
  spec_fill(&sid, sizeof sid, "sid");
  for (int i = 0; i < 5; i++) {
    s[i].word[2] &= 0x1fffff;
    if (i != k) {
      int ok = spec_any_u(1, "ok"), j = ok ? i : (i + 1) % 5;
      for (int w = 0; w < 3; w++) s[i].word[w] = good[j][w];
    }
  }
  r = e;
  r.sid = sid;
  asked_n = 0;
  memset(&asked, 0, sizeof asked);
  memset(&toe, 0, sizeof toe);
  LIB;
  bool a = decode_glo_string_1(&s[0], &r, &tk), b = decode_glo_string_2(&s[1], &r, &toe),
       c = decode_glo_string_3(&s[2], &r, &toe), d = decode_glo_string_4(&s[3], &r, &tk, &toe, &age),
       f = decode_glo_string_5(&s[4], &r, &tk, &toe, &tg);
  spec_readonly(s, sizeof s, "the strings");
  decode_glo_ephemeris(s, sid, up, &e);
  SPEC;
  bool ok = a && b && c && d && f;
  spec_eq_u(e.valid, ok, "valid");
  spec_eq_u(e.source, EPH_SOURCE_GLO_FDMA, "source");
  spec_eq_i(e.sid.code, sid.code, "code");
  spec_eq_u(asked_n, ok, "converted");
  if (!ok) {
    spec_eq_i(e.toe.wn, WN_UNKNOWN, "week unknown");
    spec_eq_d(e.toe.tow, TOW_UNKNOWN, "time unknown");
  } else {
    spec_eq_i(e.toe.wn, 2000, "week");
    spec_eq_d(e.toe.tow, 4321, "time");
    spec_eq_p(asked_utc, up, "UTC parameters");
    spec_eq_u(asked.h, toe.h, "toe.h");
    spec_eq_u(asked.m, toe.m, "toe.m");
    spec_eq_d(asked.s, toe.s, "toe.s");
    spec_eq_u(asked.nt, toe.nt, "toe.nt");
    spec_eq_u(asked.n4, toe.n4, "toe.n4");
    spec_eq_u(e.sid.sat, r.sid.sat, "satellite");
    spec_eq_d(e.ura, r.ura, "ura");
    spec_eq_u(e.fit_interval, r.fit_interval, "fit_interval");
    spec_eq_u(e.health_bits, r.health_bits, "health_bits");
    spec_eq_u(e.data.glo.iod, r.data.glo.iod, "iod");
    spec_eq_d(e.data.glo.tau, r.data.glo.tau, "tau");
    spec_eq_d(e.data.glo.gamma, r.data.glo.gamma, "gamma");
    spec_eq_d(e.data.glo.d_tau, r.data.glo.d_tau, "d_tau");
    for (int i = 0; i < 3; i++) {
      spec_eq_d(e.data.glo.pos[i], r.data.glo.pos[i], "pos");
      spec_eq_d(e.data.glo.vel[i], r.data.glo.vel[i], "vel");
      spec_eq_d(e.data.glo.acc[i], r.data.glo.acc[i], "acc");
    }
  }
  spec_cover(ok, "accepted");
}
void h_assemble1(void) { assemble(0); }
void h_assemble2(void) { assemble(1); }
void h_assemble3(void) { assemble(2); }
void h_assemble4(void) { assemble(3); }
void h_assemble5(void) { assemble(4); }
