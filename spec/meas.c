/* Navigation measurements, RTCM lock times, GLONASS code-phase biases. */
#include <swiftnav/nav_meas.h>
#include <swiftnav/glonass_phase_biases.h>
#include "util.h"
#include "sigref.h"

static bool near_(double a, double b) { return fabs(a - b) < 1e-12; }
static gnss_signal_t any_sid(const char *n) {
  gnss_signal_t s;
  spec_fill(&s, sizeof s, n);
  s.sat = (u16)spec_any_u(16, n);
  s.code = (code_t)spec_any_u(8, n);
  spec_assume(s.code < CODE_COUNT);
  return s;
}
static void any_meas(navigation_measurement_t *m, const char *n) {
  spec_fill(m, sizeof *m, n);
  double *d[] = {&m->raw_pseudorange, &m->raw_carrier_phase, &m->raw_measured_doppler, &m->raw_computed_doppler, &m->sat_pos[0],
                 &m->sat_pos[1], &m->sat_pos[2], &m->sat_vel[0], &m->sat_vel[1], &m->sat_vel[2], &m->sat_acc[0], &m->sat_acc[1],
                 &m->sat_acc[2], &m->sat_clock_err, &m->sat_clock_err_rate, &m->cn0, &m->lock_time, &m->elevation, &m->tot.tow};
  for (unsigned i = 0; i < sizeof d / sizeof *d; i++) *d[i] = spec_any_d(n);
  m->sid = any_sid(n);
  m->tot.wn = (s16)spec_any_i(16, n);
  spec_assume(m->tot.wn >= -1);
}
void h_equal(void) {
  SPEC;
  navigation_measurement_t a, b;
  any_meas(&a, "a"), any_meas(&b, "b");
  LIB;
  spec_readonly(&a, sizeof a, "measurement");
  spec_readonly(&b, sizeof b, "measurement");
  bool got = nav_meas_equal(&a, &b);
  SPEC;
  bool r = true;
#define D(f) r = r & near_(a.f, b.f)
  D(raw_pseudorange), D(raw_carrier_phase), D(raw_measured_doppler), D(raw_computed_doppler), D(sat_clock_err),
      D(sat_clock_err_rate), D(cn0), D(lock_time), D(elevation);
  for (int i = 0; i < 3; i++) D(sat_pos[i]), D(sat_vel[i]), D(sat_acc[i]);
#undef D
  /* transmitted at the same instant; times without a week are taken to be less than half a week apart */
  double dt = a.tot.tow - b.tot.tow;
  if (a.tot.wn < 0 || b.tot.wn < 0)
    dt = dt > 302400 ? dt - 604800 : dt < -302400 ? dt + 604800 : dt;
  else
    dt += 604800. * (a.tot.wn - b.tot.wn);
  r = r & near_(dt, 0);
  r = r & (a.eph_key == b.eph_key) & (a.sid.sat == b.sid.sat) & (a.sid.code == b.sid.code) & (a.flags == b.flags);
  spec_eq_u(got, r, "equal");
  spec_cover(got, "equal measurements");
}
void h_std_equal(void) {
  SPEC;
  measurement_std_t a, b;
  spec_fill(&a, sizeof a, "a"), spec_fill(&b, sizeof b, "b");
  a.sid = any_sid("a"), b.sid = any_sid("b");
  a.iono_std = spec_any_d("ai"), a.tropo_std = spec_any_d("at"), a.range_std = spec_any_d("ar");
  b.iono_std = spec_any_d("bi"), b.tropo_std = spec_any_d("bt"), b.range_std = spec_any_d("br");
  LIB;
  bool got = measurement_std_equal(&a, &b);
  SPEC;
  spec_eq_u(got, near_(a.iono_std, b.iono_std) & near_(a.tropo_std, b.tropo_std) & near_(a.range_std, b.range_std) &
                     (a.flags == b.flags) & (a.sid.sat == b.sid.sat) & (a.sid.code == b.sid.code), "equal");
  spec_cover(got, "equal deviations");
}
void h_order(void) {
  SPEC;
  navigation_measurement_t a, b;
  any_meas(&a, "a"), any_meas(&b, "b");
  LIB;
  int c = nav_meas_cmp(&a, &b), d = nav_meas_cmp(&b, &a);
  SPEC;
  spec_eq_u(c == 0, (a.sid.sat == b.sid.sat) & (a.sid.code == b.sid.code), "same signal");
  spec_eq_u(c < 0, d > 0, "antisymmetric");
  LIB;
  bool v = pseudorange_valid(&a), p = not_l2p_sid(a);
  SPEC;
  spec_eq_u(v, ((a.flags >> 0) & 1) & !((a.flags >> 6) & 1), "code valid and not excluded");
  spec_eq_u(p, a.sid.code != CODE_GPS_L2P, "not L2P");
}
void h_clock(void) {
  SPEC;
  navigation_measurement_t a;
  any_meas(&a, "a");
  u16 ch = (u16)spec_any_u(16, "fcn");
  int k = spec_any_u(6, "code");
  spec_assume(k < CODE_COUNT);
  spec_assume(a.sid.code == k);
  spec_assume(ref[k].cons != GLO);
  (void)ch;
  LIB;
  double p = nav_meas_cor_sat_clk_on_pseudorange(&a), d = nav_meas_cor_sat_clk_on_measured_doppler(&a),
         c = nav_meas_cor_sat_clk_on_carrier_phase(&a);
  SPEC;
  spec_eq_d(p, a.raw_pseudorange + 299792458.0 * a.sat_clock_err, "pseudorange");
  LIB;
  double f = sid_to_carr_freq(a.sid);
  SPEC;
  spec_eq_d(c, a.raw_carrier_phase + a.sat_clock_err * f, "carrier phase");
  spec_eq_d(d, a.raw_measured_doppler + a.sat_clock_err_rate * f, "Doppler");
}
/* RTCM DF402: index i stands for at least 2^(i+4) ms, index 0 for less than 32 ms */
void h_lock_encode(void) {
  SPEC;
  double t = spec_any_d("lock time");
  spec_assume(t >= 0);
  LIB;
  u8 got = encode_lock_time(t);
  SPEC;
  u32 ms = t * 1000 < 4294967295.0 ? (u32)(t * 1000) : 4294967295u;
  int i = 0;
  for (int k = 1; k < 16; k++)
    if (ms >= 16u << k) i = k;
  spec_eq_u(got, i, "index");
}
void h_lock_decode(void) {
  SPEC;
  u8 x = (u8)spec_any_u(8, "index");
  LIB;
  double t = decode_lock_time(x);
  SPEC;
  for (int i = 0; i < 16; i++)
    if ((x & 15) == i) {
      spec_eq_d(t, i ? (16 << i) / 1000.0 : 0, "time");
      LIB;
      u8 k = encode_lock_time(t);
      SPEC;
      spec_eq_u(k, i, "there and back");
    }
}
static glo_biases_t any_bias(const char *n) {
  glo_biases_t b;
  spec_fill(&b, sizeof b, n);
  b.mask = (u8)spec_any_u(8, n);
  b.l1of_bias_m = spec_any_d("l1of"), b.l1p_bias_m = spec_any_d("l1p"), b.l2of_bias_m = spec_any_d("l2of"),
  b.l2p_bias_m = spec_any_d("l2p");
  return b;
}
static bool close(double a, double b) { return !(fabs(a - b) > 1e-12); }
void h_bias(void) {
  SPEC;
  glo_biases_t a = any_bias("a"), b = any_bias("b");
  code_t c = (code_t)spec_any_u(8, "code");
  u8 m = (u8)spec_any_u(8, "m"), f = (u8)spec_any_u(8, "f");
  LIB;
  bool e = glonass_biases_are_equal(a, b), s = is_bias_mask_flag_set(m, f);
  double g = get_glonass_bias(c, a);
  SPEC;
  spec_eq_u(e, (a.mask == b.mask) & close(a.l1of_bias_m, b.l1of_bias_m) & close(a.l1p_bias_m, b.l1p_bias_m) &
                   close(a.l2of_bias_m, b.l2of_bias_m) & close(a.l2p_bias_m, b.l2p_bias_m), "equal");
  spec_eq_u(s, (m & f) == f, "flag set");
  int l1of = a.mask >> 3 & 1, l1p = a.mask >> 2 & 1, l2of = a.mask >> 1 & 1, l2p = a.mask & 1;
  double w = 0; /* the own bias is zero; the open signal is preferred to the P code */
  if (c == CODE_GLO_L1OF) w = l1of ? -a.l1of_bias_m : l1p ? -a.l1p_bias_m : 0;
  if (c == CODE_GLO_L2OF) w = l2of ? -a.l2of_bias_m : l2p ? -a.l2p_bias_m : 0;
  spec_eq_d(g, w, "bias");
}
