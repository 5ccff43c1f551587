/* Single epoch position solution.  The linear solver (checked on its own) is replaced by one that records what it is asked and answers
 * with free values, so that everything around it is analysed for every outcome of it. */
#include <swiftnav/single_epoch_solver.h>
#include <swiftnav/constants.h>
#include <swiftnav/signal.h>
#include <swiftnav/glo_map.h>
#include "util.h"

#define N 8
#define S 6
static navigation_measurement_t ms[N];
static int n_all, m_all, clk[N]; /* measurements, states, clock column of each measurement */
static const double vc = 299792458.0, we = 7.2921151467e-5;
static int phase, velocity, in_use[N], calls, sel[N], bad, by_weight, never;
/* plan 1: without `bad' set 1, without `other' set 2; plan 2: without `bad' set 1, without both set 2; nothing else can be solved */
static int plan, other, gone, fin;
static double at_[3][3][S], inc_[3][2][S], (*at)[S], (*inc)[S], vel[S], cov[S * S], vcov[S * S], geo[S * S], llh[3], cn0_w[N], cn0_v[N], cn0_d[N];
/* outcome of the solver for this set: 1 solved */
static int fail_first, fail_geo, fail_rate, asked;

static double unit(int k, const double *p, double u[3], double *rng, double *tau) {
  double d2 = 0, r2 = 0, d[3];
  for (int i = 0; i < 3; i++) d[i] = p[i] - ms[k].sat_pos[i], d2 += d[i] * d[i];
  *tau = sqrt(d2) / vc;
  double q[3] = {ms[k].sat_pos[0] + we * *tau * ms[k].sat_pos[1], ms[k].sat_pos[1] - we * *tau * ms[k].sat_pos[0], ms[k].sat_pos[2]};
  for (int i = 0; i < 3; i++) d[i] = q[i] - p[i], r2 += d[i] * d[i];
  *rng = sqrt(r2);
  for (int i = 0; i < 3; i++) u[i] = d[i] / *rng;
  return 0;
}
static double range_residual(int k, const double *s) {
  double u[3], r, t;
  unit(k, s, u, &r, &t);
  return ms[k].raw_pseudorange + vc * ms[k].sat_clock_err - (r + s[clk[k]]);
}
/* line of sight without the rotation of the satellite position, as the rates are used for */
static double rate_residual(int k, const double *s, const double *v) {
  double d[3], d2 = 0, f = sid_to_carr_freq(ms[k].sid);
  for (int i = 0; i < 3; i++) d[i] = ms[k].sat_pos[i] - s[i], d2 += d[i] * d[i];
  double r = sqrt(d2), tau = r / vc;
  double q[3] = {ms[k].sat_vel[0] + we * tau * ms[k].sat_vel[1], ms[k].sat_vel[1] - we * tau * ms[k].sat_vel[0], ms[k].sat_vel[2]}, p = 0;
  for (int i = 0; i < 3; i++) p += d[i] / r * (q[i] - v[i]);
  return -(ms[k].raw_measured_doppler + ms[k].sat_clock_err_rate * f) * (vc / f) - (p + v[3]);
}
static void pick(int full) {
  at = at_[full], inc = inc_[full];
}
int stub_wlsq(u32 n, u32 m, const double *A, const double *b, const double *w, double *x, double *V) {
  SPEC;
  int r = 0, cnt = 0, has = 0, hoth = 0;
  if (by_weight && w) {
    /* which measurements are these? their weights differ */
    for (int k = 0; k < n_all; k++) {
      sel[k] = 0;
      for (u32 j = 0; j < n; j++) sel[k] |= spec_is(w[j], phase < 2 ? cn0_w[k] : cn0_v[k]);
    }
  } else if (!by_weight) {
    for (int k = 0; k < n_all; k++) sel[k] = in_use[k];
  }
  for (int k = 0; k < n_all; k++) cnt += sel[k], has |= sel[k] && (bad >> k & 1), hoth |= sel[k] && (other >> k & 1);
  if (never) { /* the position keeps moving by d, back and forth */
    double step = calls++ & 1 ? -1 : 1;
    for (int i = 0; i < m_all; i++) x[i] = step * inc_[0][0][i];
    LIB;
    return 0;
  }
  spec_eq_u(m, m_all, "number of states");
  spec_eq_u(n, cnt, "number of equations");
  if (m != m_all || n != cnt) return -1;
  calls++;
  int set = plan == 2 ? (has ? 0 : !hoth ? 2 : cnt == n_all - 1) : bad && !has ? 1 : plan == 1 && !hoth ? 2 : 0;
  pick(set);
  const double *st = at[phase > 2 ? 2 : phase];
  const double *gp = at[phase > 1 ? 1 : phase];
  int j = 0;
  for (int k = 0; k < n_all; k++) {
    if (!sel[k]) continue;
    double u[3], rg, t;
    unit(k, gp, u, &rg, &t);
    for (int i = 0; i < m_all; i++)
      spec_eq_d(A[j * m_all + i], i < 3 ? -u[i] : i == clk[k], "row of the geometry matrix");
    if (w && phase < 2) {
      spec_eq_d(b[j], range_residual(k, st), "pseudorange residual");
      spec_eq_d(w[j], cn0_w[k], "weight of the pseudorange");
    } else if (w) {
      double zero[S] = {0};
      spec_eq_d(b[j], rate_residual(k, at[2], zero), "pseudorange rate residual");
      spec_eq_d(w[j], cn0_v[k], "weight of the rate");
    }
    j++;
  }
  if (!w) {
    spec_check(phase >= 2, "geometry of the final iteration");
    spec_check(!x && V, "geometry only");
    for (int i = 0; i < m_all * m_all; i++) V[i] = geo[i];
    r = fail_geo ? -1 : 0;
    phase = 0;
  } else if (phase < 2) {
    if (phase == 0 && (fail_first && !set)) {
      r = -1;
    } else {
      for (int i = 0; i < m_all; i++) x[i] = inc[phase][i];
      for (int i = 0; i < m_all * m_all; i++) V[i] = cov[i];
      phase++;
    }
  } else {
    spec_check(velocity || fail_rate, "velocity is not asked for");
    if (fail_rate) {
      phase++;
      LIB;
      return -1;
    }
    for (int i = 0; i < m_all; i++) x[i] = vel[i];
    for (int i = 0; i < m_all * m_all; i++) V[i] = vcov[i];
    phase++;
  }
  LIB;
  return r;
}
void stub_llh(const double ecef[3], double l[3]) {
  SPEC;
  for (int i = 0; i < 3; i++) {
    spec_eq_d(ecef[i], at[2][i], "geodetic position of the solution");
    l[i] = llh[i];
  }
  LIB;
}

static void symmetric(double *v, const char *nm) {
  for (int i = 0; i < m_all; i++)
    for (int j = i; j < m_all; j++) v[i * m_all + j] = v[j * m_all + i] = spec_any_d(nm);
}
static void meas(int k, u8 code, u8 sat) {
  spec_fill(&ms[k], sizeof(ms[k]), "meas");
  ms[k].sid.code = code, ms[k].sid.sat = sat;
  for (int i = 0; i < 3; i++) ms[k].sat_pos[i] = spec_any_d("sat"), ms[k].sat_vel[i] = spec_any_d("satvel");
  ms[k].cn0 = 35 + k, ms[k].elevation = 30, ms[k].lock_time = 10;
  ms[k].flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_PHASE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID;
  in_use[k] = 1;
}
static void weights(int k, double nominal) {
  double c = exp(-ms[k].cn0 / 6.5), s = sin(ms[k].elevation * 3.14159265358979323846 / 180), e = 1 / (s > 1e-3 ? s : 1e-3),
         lam = vc / sid_to_carr_freq(ms[k].sid), g = 4 - 3 * ms[k].lock_time / 4, pv = nominal + 780 * c + 0.1 * e * e, dv = 0.1 + 700 * c;
  /* arithmetic facts about the named terms: an exponential is positive, a square is not negative */
  pv = spec_cut(pv, "pv"), dv = spec_cut(dv, "dv"), g = spec_cut(g, "g");
  spec_assume(pv >= 0.4), spec_assume(dv >= 0.1), spec_assume(g >= 1 || ms[k].lock_time >= 4);
  if (!(ms[k].flags & NAV_MEAS_FLAG_PHASE_VALID)) pv *= 16, dv *= 16;
  if (ms[k].lock_time < 4) pv *= g, dv *= g;
  cn0_w[k] = 1 / pv, cn0_d[k] = dv, cn0_v[k] = 1 / (dv * lam * lam);
}
static void solver_for(int m, int p) {
  plan = p;
  m_all = m, phase = 0, calls = 0, fail_first = fail_geo = fail_rate = asked = bad = by_weight = never = other = gone = fin = 0;
  for (int q = 0; q < (plan ? 3 : 2); q++) {
    double n1 = 0, n2 = 0;
    pick(q);
    for (int i = 0; i < m; i++) {
      at[0][i] = 0;
      at[1][i] = inc[0][i] = spec_any_d("p");
      inc[1][i] = spec_any_d("e");
      at[2][i] = spec_cut(at[1][i] + inc[1][i], "x");
      if (i < 3) n1 += at[1][i] * at[1][i], n2 += inc[1][i] * inc[1][i];
    }
    spec_assume(sqrt(n1) > 0.001), spec_assume(sqrt(n2) <= 0.001);
    spec_assume(fabs(at[2][0]) > 1);
  }
  pick(0);
  for (int i = 0; i < m; i++) vel[i] = spec_any_d("v");
  symmetric(cov, "cov"), symmetric(vcov, "vcov"), symmetric(geo, "geo");
  for (int i = 0; i < 3; i++) llh[i] = spec_any_d("llh");
}
static void solver(int m) { solver_for(m, 0); }
/* residuals of the last iteration, named; the set with full=1 is the one after exclusion */
static double rho[3][N], rhodot[3][N];
static void name_residuals(int full) {
  pick(full);
  for (int k = 0; k < n_all; k++) {
    rho[full][k] = spec_cut(range_residual(k, at[1]), full == 2 ? "rhoy" : full ? "rhox" : "rho");
    if (velocity) rhodot[full][k] = spec_cut(rate_residual(k, at[2], vel), full == 2 ? "ratey" : full ? "ratex" : "rate");
  }
  pick(0);
}
/* norm of the residuals of the last iteration, each divided by its sigma, per degree of freedom */
static double sum_sq;
static int consistent_(int skip, int full) {
  double q = 0;
  name_residuals(full);
  int n = 0;
  for (int k = 0; k < n_all; k++)
    if (in_use[k] && !(skip >> k & 1)) {
      q += rho[full][k] * rho[full][k] * cn0_w[k], n++;
      if (velocity) q += rhodot[full][k] * rhodot[full][k] / cn0_d[k], n++;
    }
  int dof = n - (velocity ? 2 : 1) * m_all;
  sum_sq = q;
  return sqrt(q) / sqrt(dof) < 2.5 * sqrt((double)n / dof);
}
static int consistent(int skip) { return consistent_(skip, skip != 0); }
static double vdop2(void) {
  double d[3] = {-cos(llh[0]) * cos(llh[1]), -cos(llh[0]) * sin(llh[1]), -sin(llh[0])}, s = 0;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) s += d[i] * geo[i * m_all + j] * d[j];
  return s;
}
static int verdict(double gdop, double speed) {
  return gdop > 20 ? -1 : llh[2] < -1000 || llh[2] > 1000000 ? -2 : speed >= 514.444444 ? -3 : 0;
}

static int want_out(int r) { return r == 1; }
static void run(int ok_code, int want_vel, int no_raim, gps_time_t tor, int strategy, double threshold) {
  gnss_solution sol;
  dops_t d;
  gnss_sid_set_t out;
  obs_mask_config_t mask = {{threshold > 0, threshold}};
  spec_fill(&sol, sizeof(sol), "old solution");
  spec_fill(&d, sizeof(d), "old dops");
  sid_set_init(&out);
  int bads = gone;
  velocity = want_vel;
  int m = m_all;
  double p2 = geo[0] + geo[m + 1] + geo[2 * m + 2], t2 = geo[3 * m + 3], gdop = sqrt(p2 + t2), v2 = 0;
  double ned[3][3], la = llh[0], lo = llh[1];
  double ax[3][3] = {{-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la)}, {-sin(lo), cos(lo), 0}, {-cos(la) * cos(lo), -cos(la) * sin(lo), -sin(la)}};
  memcpy(ned, ax, sizeof(ax));
  for (int i = 0; i < 3; i++) v2 += want_vel ? vel[i] * vel[i] : 0;
  int v = verdict(gdop, sqrt(v2));
  LIB;
  s8 r = calc_PVT(n_all, ms, &tor, no_raim, !want_vel && !asked, &mask, strategy, &sol, &d, &out);
  SPEC;
  pick(fin);
  for (int k = 0; k < n_all; k++)
    spec_eq_u(ok_code == 1 && want_out(r) && sid_set_contains(&out, ms[k].sid), ok_code == 1 && want_out(r) && (bads >> k & 1), "excluded signals");
  int want = ok_code < 0 ? ok_code : v ? v : ok_code;
  spec_eq_i(r, want, "result code");
  spec_eq_u(sol.valid, want >= 0, "valid exactly when a solution is reported");
  if (want >= 0) {
    for (int i = 0; i < 3; i++) {
      spec_eq_d(sol.pos_ecef[i], at[2][i], "position");
      spec_eq_d(sol.pos_llh[i], llh[i], "geodetic position");
      spec_eq_d(sol.vel_ecef[i], want_vel ? vel[i] : 0, "velocity");
      double s = 0;
      for (int j = 0; j < 3; j++) s += ned[i][j] * vel[j];
      spec_eq_d(sol.vel_ned[i], want_vel ? s : 0, "local velocity");
    }
    static const int ia[6] = {0, 0, 0, 1, 1, 2}, ib[6] = {0, 1, 2, 1, 2, 2};
    for (int i = 0; i < 6; i++) {
      spec_eq_d(sol.err_cov[i], cov[ia[i] * m + ib[i]], "position covariance");
      if (want_vel || asked) spec_eq_d(sol.vel_cov[i], want_vel ? vcov[ia[i] * m + ib[i]] : 0, "velocity covariance");
    }
    spec_eq_d(sol.err_cov[6], gdop, "covariance GDOP");
    spec_eq_d(d.gdop, gdop, "GDOP"), spec_eq_d(d.pdop, sqrt(p2), "PDOP"), spec_eq_d(d.tdop, sqrt(t2), "TDOP");
    spec_eq_d(d.vdop, sqrt(vdop2()), "VDOP"), spec_eq_d(d.hdop, sqrt(p2 - vdop2()), "HDOP");
    spec_eq_d(sol.clock_offset, at[2][3] / vc, "clock offset");
    spec_eq_d(sol.clock_offset_var, cov[3 * m + 3] / vc / vc, "clock offset variance");
    spec_eq_d(sol.clock_drift, want_vel ? vel[3] / vc : 0, "clock drift");
    spec_eq_d(sol.clock_drift_var, want_vel ? vcov[3 * m + 3] / vc / vc : 0, "clock drift variance");
    double tow = tor.tow - at[2][3] / vc;
    spec_eq_i(sol.time.wn, tow < 0 ? tor.wn - 1 : tow >= 604800 ? tor.wn + 1 : tor.wn, "week of the solution");
    spec_eq_d(sol.time.tow, tow < 0 ? tow + 604800 : tow >= 604800 ? tow - 604800 : tow, "second of the solution");
    spec_eq_u(sol.velocity_valid, want_vel, "velocity valid exactly when asked for and solved");
    int sig = 0, sats = 0;
    for (int k = 0; k < n_all; k++)
      if (in_use[k] && !(bads >> k & 1)) {
        int seen = 0;
        for (int q = 0; q < k; q++)
          seen |= in_use[q] && !(bads >> q & 1) && ms[q].sid.sat == ms[k].sid.sat && sid_to_constellation(ms[q].sid) == sid_to_constellation(ms[k].sid);
        sig++, sats += !seen;
      }
    spec_eq_u(sol.n_sigs_used, sig, "signals used");
    spec_eq_u(sol.n_sats_used, sats, "satellites used");
  }
}
static gps_time_t epoch(void) {
  gps_time_t t;
  t.wn = 2000, t.tow = spec_any_d("tow");
  spec_assume(t.tow >= 0 && t.tow < 604800);
  spec_assume(at[2][3] / vc > -1000 && at[2][3] / vc < 1000);
  return t;
}
#include "sigref.h"
static double nominal(int c) {
  switch (ref[c].cons) {
    case GPS: return c == CODE_GPS_L1CA || c == CODE_GPS_L1P ? 0.4 : 1;
    case GLO: return 8;
    case BDS: return 0.5;
    case GAL: return 0.4;
    default: return 1;
  }
}
/* clock states in order of appearance */
static int states(void) {
  int col[6], m = 3;
  for (int i = 0; i < 6; i++) col[i] = -1;
  for (int k = 0; k < n_all; k++)
    if (in_use[k]) {
      int c = ref[ms[k].sid.code].cons;
      if (col[c] < 0) col[c] = m++;
      clk[k] = col[c];
    }
  return m;
}
static void gps_for(int n, int want_vel, int p) {
  n_all = n, velocity = want_vel;
  for (int k = 0; k < n; k++) meas(k, CODE_GPS_L1CA, 3 + 2 * k), ms[k].cn0 = spec_any_d("cn0"), clk[k] = 3, weights(k, 0.4);
  solver_for(4, p);
}
static void gps(int n, int want_vel) { gps_for(n, want_vel, 0); }
void h_plain(void) {
  SPEC;
  gps(4, 1);
  run(2, 1, 1, epoch(), ALL_CONSTELLATIONS, 0);
}
void h_position_only(void) {
  SPEC;
  gps(4, 0);
  run(2, 0, 1, epoch(), ALL_CONSTELLATIONS, 0);
}
void h_unsolved(void) {
  SPEC;
  for (int i = 0; i < 4; i++) {
    spec_begin();
    gps(4, i & 1);
    fail_first = !(i >> 1), fail_geo = i >> 1;
    run(-6, i & 1, 1, epoch(), ALL_CONSTELLATIONS, 0);
    spec_end();
  }
}
static void mixed(int want_vel, int strategy, double threshold, int use, int swap) {
  SPEC;
  spec_begin();
  static const u8 code[N] = {CODE_GPS_L1CA, CODE_GAL_E1B, CODE_GPS_L2CM, CODE_GAL_E7I, CODE_GPS_L1CA, CODE_GAL_E1B, CODE_GPS_L1CA, CODE_GPS_L1CA},
                  sat[N] = {5, 5, 5, 9, 12, 30, 2, 31};
  n_all = N, velocity = want_vel;
  for (int k = 0; k < N; k++) {
    int q = swap ? N - 1 - k : k;
    meas(k, code[q], sat[q]), in_use[k] = use >> q & 1, weights(k, nominal(code[q]));
    ms[k].cn0 = 35 + q, weights(k, nominal(code[q]));
  }
  solver(states());
  run(2, want_vel, 1, epoch(), strategy, threshold);
  spec_end();
}
void h_mixed(void) {
  mixed(1, ALL_CONSTELLATIONS, 0, 0xff, 0), mixed(0, ALL_CONSTELLATIONS, 0, 0xff, 1);
}
/* strictly above the mask */
void h_mask(void) { mixed(1, ALL_CONSTELLATIONS, 36, 0xfc, 0), mixed(0, ALL_CONSTELLATIONS, 36.5, 0xfc, 1); }
void h_strategy(void) {
  mixed(1, GPS_ONLY, 0, 0xd5, 0), mixed(0, L1_ONLY, 0, 0xf3, 0), mixed(1, GPS_L1CA_WHEN_POSSIBLE, 0, 0xfb, 0);
}
void h_l1ca_enough(void) {
  SPEC;
  for (int n = 6; n <= 7; n++) {
    spec_begin();
    gps(n, 0);
    n_all = n + 1;
    meas(n, CODE_GAL_E1B, 7), weights(n, 0.4), in_use[n] = n == 6;
    solver(states());
    run(2, 0, 1, epoch(), GPS_L1CA_WHEN_POSSIBLE, 0);
    spec_end();
  }
}
static void too_few(int n, const u8 *code, const u8 *sat, int strategy, double threshold) {
  SPEC;
  spec_begin();
  n_all = n;
  for (int k = 0; k < n; k++) meas(k, code[k], sat[k]), weights(k, nominal(code[k]));
  solver(4);
  run(-7, 1, 1, epoch(), strategy, threshold);
  spec_eq_u(calls, 0, "nothing is solved");
  spec_end();
}
void h_too_few(void) {
  static const u8 a[] = {CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L1CA}, as[] = {1, 2, 1, 3};
  static const u8 b[] = {CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GAL_E1B}, bs[] = {1, 2, 4, 3};
  static const u8 c[] = {CODE_GAL_E1B, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GAL_E7I}, cs[] = {1, 2, 3, 4, 6};
  too_few(0, a, as, ALL_CONSTELLATIONS, 0), too_few(3, a, as, ALL_CONSTELLATIONS, 0), too_few(4, a, as, ALL_CONSTELLATIONS, 0);
  too_few(4, b, bs, ALL_CONSTELLATIONS, 0), too_few(5, c, cs, GPS_ONLY, 0), too_few(5, c, cs, ALL_CONSTELLATIONS, 36);
}
/* a velocity is asked for, but a signal has no measured Doppler (it may have a computed one), or the rates cannot be solved */
static void without_rate(int n, int no_raim, int lacks) {
  spec_begin();
  gps(n, 0);
  asked = 1;
  int computed = spec_any_u(1, "computed");
  for (int k = 0; k < n; k++)
    if (lacks >> k & 1) ms[k].flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_PHASE_VALID | (computed ? NAV_MEAS_FLAG_COMP_DOPPLER_VALID : 0);
  fail_rate = !lacks;
  run(n == 4 || no_raim ? 2 : consistent(0) ? 0 : -4, 0, no_raim, epoch(), ALL_CONSTELLATIONS, 0);
  spec_end();
}
void h_no_rate(void) {
  SPEC;
  static const int lacks[4] = {0xf, 4, 8, 0};
  for (int i = 0; i < 4; i++) without_rate(4, i & 1, lacks[i]);
}
void h_no_rate5(void) {
  SPEC;
  static const int lacks[4] = {0x1f, 2, 16, 0};
  for (int i = 0; i < 4; i++) without_rate(5, 0, lacks[i]);
}
/* the residual test */
static void raim(int n, int want_vel) {
  SPEC;
  spec_begin();
  gps(n, want_vel);
  run(n == 4 ? 2 : consistent(0) ? 0 : -4, want_vel, 0, epoch(), ALL_CONSTELLATIONS, 0);
  spec_end();
  for (int q = 0; q < 2; q++) {
    spec_begin();
    gps(n, want_vel);
    fail_first = q, fail_geo = !q;
    run(-5, want_vel, 0, epoch(), ALL_CONSTELLATIONS, 0);
    spec_end();
  }
}
void h_raim4(void) { raim(4, 0), raim(4, 1); }
void h_raim5(void) { raim(5, 0), raim(5, 1); }
/* one bad measurement out of n: the others are consistent, and no set with the bad one can be solved */
static void exclude(int n, int b, int want_vel) {
  SPEC;
  spec_begin();
  gps(n, want_vel);
  by_weight = 1, fail_first = 1, bad = gone = 1 << b, fin = 1;
  pick(1);
  spec_assume(consistent(bad));
  pick(1);
  gps_time_t t = epoch();
  pick(0);
  run(1, want_vel, 0, t, ALL_CONSTELLATIONS, 0);
  spec_end();
}
void h_exclude(void) {
  for (int b = 0; b < 6; b++) exclude(6, b, b & 1);
}
/* two measurements the rest is consistent without: the one that leaves the smaller residuals goes */
static void choose(int a, int b, int want_vel) {
  SPEC;
  for (int which = 0; which < 2; which++) {
    spec_begin();
    gps_for(6, want_vel, 1);
    by_weight = 1, fail_first = 1, bad = 1 << a, other = 1 << b;
    spec_assume(consistent_(bad, 1));
    double q1 = sqrt(sum_sq);
    spec_assume(consistent_(other, 2));
    double q2 = sqrt(sum_sq);
    spec_assume(which ? q2 < q1 : q1 < q2);
    fin = 1 + which, gone = which ? other : bad;
    pick(fin);
    gps_time_t t = epoch();
    pick(0);
    run(1, want_vel, 0, t, ALL_CONSTELLATIONS, 0);
    spec_end();
  }
}
void h_choose(void) { choose(0, 3, 0), choose(4, 1, 0), choose(2, 5, 1); }
/* no single exclusion is enough: the best one stays excluded and a second one is looked for */
static void twice(int a, int b, int want_vel) {
  SPEC;
  spec_begin();
  gps_for(7, want_vel, 2);
  by_weight = 1, fail_first = 1, bad = 1 << a, other = 1 << b;
  spec_assume(!consistent_(bad, 1));
  spec_assume(consistent_(bad | other, 2));
  fin = 2, gone = bad | other;
  pick(fin);
  gps_time_t t = epoch();
  pick(0);
  run(1, want_vel, 0, t, ALL_CONSTELLATIONS, 0);
  spec_end();
}
void h_twice(void) { twice(1, 4, 0), twice(6, 0, 0), twice(3, 2, 1); }
/* nor can any of the smaller sets be solved */
void h_hopeless(void) {
  SPEC;
  for (int v = 0; v < 2; v++) {
    spec_begin();
    gps(6, v);
    by_weight = 1, fail_first = 1;
    run(-4, v, 0, epoch(), ALL_CONSTELLATIONS, 0);
    spec_check(calls >= 7, "every smaller set is tried");
    spec_end();
  }
}
/* the position does not settle: ten steps, then no solution */
void h_divergent(void) {
  SPEC;
  for (int v = 0; v < 2; v++) {
    spec_begin();
    gps(4, v);
    never = 1;
    run(v ? -6 : -5, v, v, epoch(), ALL_CONSTELLATIONS, 0);
    spec_eq_u(calls, 10, "steps taken");
    spec_end();
  }
}
/* the weight of each measurement: signal, carrier to noise density, elevation, time in lock and phase lock */
static void noises(int from, int to) {
  SPEC;
  for (int c = from; c < to; c++) {
    int t = ref[c].cons, aux = c >= CODE_AUX_GPS && c <= CODE_AUX_BDS;
    if (aux || t == SBAS || c == CODE_GLO_L1P || c == CODE_GLO_L2P || (c >= CODE_GAL_E6B && c <= CODE_GAL_E6X) || (c >= CODE_GAL_E8I && c <= CODE_GAL_E8X) ||
        (c >= CODE_GPS_L1CI && c <= CODE_GPS_L1CX) || (c >= CODE_QZS_L1CI && c <= CODE_QZS_L1CX))
      continue; /* not used for positioning: no noise model */
    spec_begin();
    n_all = 4;
    for (int k = 0; k < 4; k++) {
      meas(k, c, (t == QZS ? 193 : 1) + 2 * k);
      if (!k) {
        u8 fl = spec_any_u(1, "phase");
        ms[k].flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | fl << 1;
        ms[k].cn0 = spec_any_d("cn0"), ms[k].elevation = spec_any_d("el"), ms[k].lock_time = spec_any_d("lock");
      }
      if (t == GLO) glo_map_set_slot_id(3 + 2 * k, ms[k].sid.sat);
      if (!k) spec_assume(ms[k].lock_time >= 0);
      weights(k, nominal(c));
    }
    solver(states());
    run(2, 1, 1, epoch(), ALL_CONSTELLATIONS, 0);
    spec_end();
  }
}
void h_noise_a(void) { noises(0, 20); }
void h_noise_b(void) { noises(20, 40); }
void h_noise_c(void) { noises(40, CODE_COUNT); }
