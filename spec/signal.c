#include <swiftnav/constants.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/signal.h>
#include <swiftnav/sid_set.h>
#include "util.h"

#include "sigref.h"

static bool code_ok(s64 c) { return c >= 0 && c <= 63; }

/* every code value, every satellite number */
void h_table(void) {
  s32 c = (s32)spec_any_i(32, "code");
  u16 sat = (u16)spec_any_u(16, "sat");
  gnss_signal_t sid = {.sat = sat, .code = (code_t)c};
  LIB;
  bool v = sid_valid(sid);
  constellation_t k = sid_to_constellation(sid);
  bool cv = code_valid((code_t)c);
  bool q[6] = {is_gps((code_t)c), is_sbas((code_t)c), is_glo((code_t)c), is_bds2((code_t)c), is_qzss((code_t)c), is_gal((code_t)c)};
  code_t l1 = sid_to_l1_code(sid), l5 = sid_to_l5_code(sid);
  SPEC;
  int cons = code_ok(c) ? ref[c].cons : INV;
  spec_eq_u(cv, code_ok(c), "code validity");
  spec_eq_i(k, cons, "constellation of a signal");
  for (int i = 0; i < 6; i++) spec_eq_u(q[i], cons == i, "constellation predicate");
  spec_eq_u(v, code_ok(c) && sat >= first_prn[ref[c & 63].cons] && sat < first_prn[ref[c & 63].cons] + n_prn[ref[c & 63].cons],
            "signal validity");
  static const int ref_l1[6] = {0, 2, 3, 12, 31, 14}, ref_l5[6] = {9, -1, -1, 47, 38, 26};
  spec_eq_i(l1, cons < 0 ? -1 : ref_l1[cons], "primary code of the constellation");
  spec_eq_i(l5, cons < 0 ? -1 : ref_l5[cons], "L5 code of the constellation");
}
void h_codes(void) {
  u32 c = (u32)spec_any_u(6, "code");
  code_t k = (code_t)c;
  LIB;
  constellation_t cons = code_to_constellation(k);
  u32 chips = code_to_chip_count(k);
  double rate = code_to_chip_rate(k);
  u16 ms = code_to_prn_period_ms(k);
  bool da = code_requires_direct_acq(k), dec = code_requires_decoder(k);
  float dmin = code_to_sv_doppler_min(k), dmax = code_to_sv_doppler_max(k), ph = code_to_phase_alignment(k);
  u16 sigs = code_to_sig_count(k);
  SPEC;
  spec_eq_i(cons, ref[c].cons, "constellation of a code");
  spec_eq_u(chips, ref[c].chips, "chip count");
  spec_eq_d(rate, ref[c].rate, "chip rate");
  spec_eq_u(ms, ref[c].ms, "PRN period");
  spec_eq_u(da, ref[c].direct, "direct acquisition");
  spec_eq_u(dec, ref[c].decoder, "needs decoder");
  spec_eq_d(ph, ref[c].phase, "phase alignment");
  spec_eq_u(sigs, ref[c].cons == GLO ? 14 : n_prn[ref[c].cons], "number of signals of a code");
  spec_check(dmin == -dmax, "Doppler range is symmetric");
}
void h_freq(void) {
  for (u32 c = 0; c < 64; c++) {
    if (c == 3 || c == 4) continue;
    gnss_signal_t sid = {.sat = (u16)spec_any_u(16, "sat"), .code = (code_t)c};
    LIB;
    double f = sid_to_carr_freq(sid), l = sid_to_lambda(sid);
    float dmax = code_to_sv_doppler_max((code_t)c);
    SPEC;
    spec_eq_d(f, ref[c].freq, "carrier frequency");
    spec_eq_d(l, 299792458.0 / ref[c].freq, "wavelength");
    double d = ref[c].doppler * ref[c].freq / (ref[c].cons == GLO ? 1602.0e6 : ref[c].cons == BDS ? 1526 * 1.023e6 : 1540 * 1.023e6);
    spec_check(dmax > d - 0.01 && dmax < d + 0.01, "maximum Doppler scales with the carrier");
  }
}
/* signal <-> index */
void h_index(void) {
  u32 c = (u32)spec_any_u(6, "code"), i = (u32)spec_any_u(6, "index");
  int k = ref[c].cons;
  spec_assume((int)i < n_prn[k]);
  LIB;
  gnss_signal_t s = sid_from_code_index((code_t)c, (u16)i);
  bool v = sid_valid(s);
  u16 j = sid_to_code_index(s);
  SPEC;
  spec_eq_u(s.sat, (u32)first_prn[k] + i, "satellite of an index");
  spec_eq_i(s.code, c, "code of an index");
  spec_eq_u(v, 1, "an index denotes a valid signal");
  spec_eq_u(j, i, "index round trip");
}
void h_index_back(void) {
  u32 c = (u32)spec_any_u(6, "code"), sat = (u32)spec_any_u(16, "sat");
  int k = ref[c].cons;
  spec_assume((int)sat >= first_prn[k] && (int)sat < first_prn[k] + n_prn[k]);
  gnss_signal_t s = {.sat = (u16)sat, .code = (code_t)c};
  LIB;
  u16 j = sid_to_code_index(s);
  gnss_signal_t t = sid_from_code_index((code_t)c, j);
  gnss_signal_t w = construct_sid((code_t)c, (u16)sat);
  SPEC;
  spec_check(j < 64 && (int)j < n_prn[k], "index below the satellite count");
  spec_eq_u(t.sat, sat, "signal round trip");
  spec_eq_i(t.code, c, "signal round trip (code)");
  spec_eq_u(w.sat, sat, "constructed satellite");
  spec_eq_i(w.code, c, "constructed code");
}
static gnss_signal_t any_sid(void) {
  gnss_signal_t s = {.sat = (u16)spec_any_u(16, "sat"), .code = (code_t)spec_any_u(6, "code")};
  return s;
}
static int order(gnss_signal_t a, gnss_signal_t b) {
  int ca = ref[a.code & 63].cons, cb = ref[b.code & 63].cons;
  if (ca != cb) return ca < cb ? -1 : 1;
  if (a.code != b.code) return a.code < b.code ? -1 : 1;
  return a.sat < b.sat ? -1 : a.sat > b.sat ? 1 : 0;
}
void h_order(void) {
  gnss_signal_t a = any_sid(), b = any_sid();
  LIB;
  int r = sid_compare(a, b), q = cmp_sid_sid(&a, &b);
  bool e = sid_is_equal(a, b);
  uint32_t ha = sid_hash(a), hb = sid_hash(b);
  SPEC;
  int o = order(a, b);
  spec_eq_u(r < 0, o < 0, "sid_compare: less");
  spec_eq_u(r == 0, o == 0, "sid_compare: equal");
  spec_eq_u(q < 0, o < 0, "cmp_sid_sid: less");
  spec_eq_u(q == 0, o == 0, "cmp_sid_sid: equal");
  spec_eq_u(e, o == 0, "signal equality");
  spec_eq_u(ha == hb, o == 0, "hash equality");
  spec_eq_u(ha < hb, o < 0, "hash order");
}
void h_unknown(void) {
  /* the unknown signal equals no signal with a valid code */
  gnss_signal_t a = any_sid(), u = SID_UNKNOWN;
  LIB;
  bool e = sid_is_equal(a, u), f = sid_is_equal(u, u);
  int r = sid_compare(a, u);
  SPEC;
  spec_eq_u(e, 0, "unknown signal equality");
  spec_eq_u(f, 1, "unknown signal equals itself");
  spec_check(r != 0, "unknown signal differs from every signal");
}
void h_cons(void) {
  s32 k = (s32)spec_any_i(32, "constellation");
  LIB;
  bool v = constellation_valid((constellation_t)k);
  char ch = constellation_to_char((constellation_t)k);
  code_t l1 = constellation_to_l1_code((constellation_t)k);
  constellation_t back = char_to_constellation(ch);
  char any = (char)spec_any_i(8, "char");
  constellation_t fwd = char_to_constellation(any);
  char again = constellation_to_char(fwd);
  SPEC;
  bool ok = k >= 0 && k < 6;
  spec_eq_u(v, ok, "constellation validity");
  spec_eq_i(ch, ok ? cons_char[k] : '?', "constellation letter");
  spec_eq_i(back, ok ? k : -1, "letter round trip");
  spec_eq_i(l1, ok ? (k == 0 ? 0 : k == 1 ? 2 : k == 2 ? 3 : k == 3 ? 12 : k == 4 ? 31 : 14) : -1, "primary code");
  spec_check(fwd < 0 || again == any, "letter denotes its constellation");
}
void h_satcount(void) {
  for (int k = 0; k < 6; k++) {
    LIB;
    u16 n = constellation_to_sat_count((constellation_t)k);
    SPEC;
    spec_eq_u(n, n_prn[k], "satellites of a constellation");
  }
}
static int streq(const char *a, const char *b) {
  for (int i = 0;; i++) {
    if (a[i] != b[i]) return 0;
    if (!a[i]) return 1;
  }
}
/* names */
void h_names(void) {
  for (int c = 0; c < 64; c++) {
    LIB;
    const char *s = code_to_string((code_t)c);
    code_t r = code_string_to_enum(ref[c].str);
    SPEC;
    spec_check(streq(s, ref[c].str), "code name");
    spec_eq_i(r, c, "code of a name");
  }
  for (int k = 0; k < 6; k++) {
    LIB;
    const char *s = constellation_to_string((constellation_t)k);
    constellation_t r = constellation_string_to_enum(cons_name[k]);
    SPEC;
    spec_check(streq(s, cons_name[k]), "constellation name");
    spec_eq_i(r, k, "constellation of a name");
  }
  static const char *sub[7] = {"GPS", "SBAS", "GLO", "BDS2", "BDS3", "QZS", "GAL"};
  static const int sub_cons[7] = {0, 1, 2, 3, 3, 4, 5};
  for (int k = 0; k < 7; k++) {
    LIB;
    const char *s = sub_constellation_to_string((sub_constellation_t)k);
    sub_constellation_t r = sub_constellation_string_to_enum(sub[k]);
    constellation_t c = sub_constellation_to_constellation((sub_constellation_t)k);
    SPEC;
    spec_check(streq(s, sub[k]), "sub constellation name");
    spec_eq_i(r, k, "sub constellation of a name");
    spec_eq_i(c, sub_cons[k], "constellation of a sub constellation");
  }
}
void h_names_total(void) {
  s32 c = (s32)spec_any_i(32, "code");
  LIB;
  const char *a = code_to_string((code_t)c), *b = constellation_to_string((constellation_t)c),
             *d = sub_constellation_to_string((sub_constellation_t)c);
  char x = a[0], y = b[0], z = d[0];
  SPEC;
  if (c < 0 || c > 63) spec_eq_i(x, '?', "unknown code name");
  if (c < 0 || c > 5) spec_eq_i(y, '?', "unknown constellation name");
  if (c < 0 || c > 6) spec_eq_i(z, '?', "unknown sub constellation name");
}
void h_unknown_names(void) {
  char s[6];
  for (int i = 0; i < 5; i++) s[i] = (char)spec_any_i(8, "name");
  s[5] = 0;
  LIB;
  constellation_t k = constellation_string_to_enum(s);
  sub_constellation_t q = sub_constellation_string_to_enum(s);
  SPEC;
  int ref_k = -1;
  for (int i = 0; i < 6; i++)
    if (streq(s, cons_name[i])) ref_k = i;
  spec_eq_i(k, ref_k, "constellation of an arbitrary name");
  static const char *sub[7] = {"GPS", "SBAS", "GLO", "BDS2", "BDS3", "QZS", "GAL"};
  int ref_q = -1;
  for (int i = 0; i < 7; i++)
    if (streq(s, sub[i])) ref_q = i;
  spec_eq_i(q, ref_q, "sub constellation of an arbitrary name");
}
void h_unknown_code_name(void) {
  char s[15];
  for (int i = 0; i < 14; i++) s[i] = (char)spec_any_i(8, "name");
  s[14] = 0;
  LIB;
  code_t c = code_string_to_enum(s);
  SPEC;
  int r = -1;
  for (int i = 63; i >= 0; i--)
    if (streq(s, ref[i].str)) r = i;
  spec_eq_i(c, r, "code of an arbitrary name");
}
/* "<code> <satellite>" in 16 bytes */
static void text(int c, u16 sat, const char *name) {
  char buf[SID_STR_LEN_MAX], want[32];
  spec_fill(buf, sizeof buf, "buf");
  gnss_signal_t s = {.sat = sat, .code = (code_t)c};
  LIB;
  int n = sid_to_string(buf, sizeof buf, s);
  SPEC;
  int w = 0;
  for (int i = 0; name[i]; i++) want[w++] = name[i];
  want[w++] = ' ';
  u32 v = sat;
  if (v >= 10000) want[w++] = (char)('0' + v / 10000 % 10);
  if (v >= 1000) want[w++] = (char)('0' + v / 1000 % 10);
  if (v >= 100) want[w++] = (char)('0' + v / 100 % 10);
  if (v >= 10) want[w++] = (char)('0' + v / 10 % 10);
  want[w++] = (char)('0' + v % 10);
  want[w] = 0;
  spec_eq_i(n, w, "number of characters");
  for (int i = 0; i <= w; i++) spec_eq_i(buf[i], want[i], "rendered signal");
}
void h_text(void) {
  for (int c = 0; c < 64; c++) {
    spec_begin();
    u16 sat = (u16)spec_any_u(16, "sat");
    text(c, sat, ref[c].str);
    spec_end();
  }
}
void h_text_any(void) {
  s32 c = (s32)spec_any_i(32, "code");
  spec_assume(c < 0 || c >= 64);
  text(c, (u16)spec_any_u(16, "sat"), "?");
}
/* SBAS service providers */
static int sys_of(u32 p) {
  return p == 131 || p == 133 || p == 138 ? 0 : p == 123 || p == 126 || p == 136 ? 1 : p == 127 || p == 128 ? 2 : p == 129 || p == 137 ? 3 : -1;
}
void h_sbas(void) {
  static const int sb[5] = {2, 41, 42, 43, 60};
  for (int i = 0; i < 5; i++) {
    gnss_signal_t s = {.sat = (u16)spec_any_u(16, "sat"), .code = (code_t)sb[i]};
    LIB;
    sbas_system_t y = get_sbas_system(s);
    SPEC;
    spec_eq_i(y, sys_of(s.sat), "SBAS provider");
  }
  for (int y = 0; y < 4; y++) {
    LIB;
    const u8 *l = get_sbas_prn_list((sbas_system_t)y);
    u8 p[3] = {l[0], l[1], l[2]};
    SPEC;
    u32 seen = 0;
    for (int i = 0; i < 3; i++) {
      spec_check(p[i] == 0 || sys_of(p[i]) == y, "listed PRN belongs to the provider");
      spec_check(p[i] == 0 || i == 0 || p[i] > p[i - 1], "PRNs are listed once, in order");
      seen += p[i] != 0;
    }
    spec_eq_u(seen, y < 2 ? 3 : 2, "number of PRNs of a provider");
  }
}
/* sid sets */
static bool in_range(gnss_signal_t a) {
  int k = ref[a.code & 63].cons;
  return a.sat >= first_prn[k] && a.sat < first_prn[k] + n_prn[k];
}
void h_set_ops(void) {
  for (u32 c = 0; c < 64; c += 1) {
    spec_begin();
    gnss_sid_set_t s, t;
    gnss_signal_t a = any_sid(), b = {.sat = (u16)spec_any_u(16, "sat"), .code = (code_t)c};
    spec_assume(in_range(a) && in_range(b));
    /* the membership word of b's code is arbitrary; all the others share one arbitrary word */
    u64 other = spec_any_u(64, "other");
    for (u32 i = 0; i < 64; i++) s.sats[i] = other;
    s.sats[c] = spec_any_u(64, "word");
    LIB;
    t = s;
    bool before = sid_set_contains(&t, b);
    sid_set_add(&t, a);
    bool add = sid_set_contains(&t, b);
    t = s;
    sid_set_remove(&t, a);
    bool rem = sid_set_contains(&t, b);
    SPEC;
    bool same = order(a, b) == 0;
    spec_eq_u(add, before || same, "membership after adding");
    spec_eq_u(rem, before && !same, "membership after removing");
    spec_end();
  }
}
void h_set_init(void) {
  gnss_sid_set_t s;
  spec_fill(&s, sizeof s, "set");
  gnss_signal_t b = any_sid();
  int kb = ref[b.code & 63].cons;
  spec_assume(b.sat >= first_prn[kb] && b.sat < first_prn[kb] + n_prn[kb]);
  LIB;
  sid_set_init(&s);
  bool in = sid_set_contains(&s, b);
  u32 n = sid_set_get_sat_count(&s), m = sid_set_get_sig_count(&s);
  SPEC;
  spec_eq_u(in, 0, "empty set has no members");
  spec_eq_u(n, 0, "empty set has no satellites");
  spec_eq_u(m, 0, "empty set has no signals");
}
/* counts: arbitrary subsets of three satellites per signal, constellation by constellation */
static void count(u32 mask) {
  spec_begin();
  gnss_sid_set_t s;
  u32 sig = 0, sat = 0;
  bool any[6][3] = {{0}};
  LIB;
  sid_set_init(&s);
  SPEC;
  for (u32 c = 0; c < 64; c++) {
    int k = ref[c].cons;
    if (!(mask >> k & 1)) continue;
    for (int i = 0; i < 3; i++) {
      int idx = i == 0 ? 0 : i == 1 ? 1 : n_prn[k] - 1;
      bool in = spec_any_u(1, "in");
      gnss_signal_t e = {.sat = (u16)(first_prn[k] + idx), .code = (code_t)c};
      LIB;
      if (in) sid_set_add(&s, e);
      SPEC;
      sig += in;
      any[k][i] |= in;
    }
  }
  for (int k = 0; k < 6; k++)
    for (int i = 0; i < 3; i++) sat += any[k][i];
  LIB;
  u32 n = sid_set_get_sat_count(&s), m = sid_set_get_sig_count(&s);
  SPEC;
  spec_eq_u(n, sat, "number of satellites");
  spec_eq_u(m, sig, "number of signals");
  spec_end();
}
void h_set_count(void) {
  for (u32 k = 0; k < 6; k++) count(1u << k);
  count(1u << SBAS | 1u << GLO);
}
