RF = []
def R(*a): RF.append(a)
T = 'src/gnss_time.c'
R('norm_while', T, [('''    while (t->tow < 0) {
      t->tow += WEEK_SECS;
    }
    while (t->tow >= WEEK_SECS) {
      t->tow -= WEEK_SECS;
    }
    return true;''', '''    s16 ignored = 0;
    wrap_week(&t->tow, &ignored);
    (void)ignored;
    return true;'''), ('''  while (t->tow < 0) {
    t->tow += WEEK_SECS;
    t->wn -= 1;
  }

  while (t->tow >= WEEK_SECS) {
    t->tow -= WEEK_SECS;
    t->wn += 1;
  }
}''', '''  wrap_week(&t->tow, &t->wn);
}'''), ('''bool normalize_gps_time_safe(''', '''static void wrap_week(double *tow, s16 *wn) {
  double s = *tow;
  s16 w = *wn;
  for (; s < 0; s += WEEK_SECS) {
    w--;
  }
  for (; s >= WEEK_SECS; s -= WEEK_SECS) {
    w++;
  }
  *tow = s;
  *wn = w;
}

bool normalize_gps_time_safe(''')], 'unsafe_normalize_gps_time normalize_gps_time_safe normalize_gps_time')
R('gpsdiff', T, [('''  double dt = end->tow - beginning->tow;
  if (end->wn == WN_UNKNOWN || beginning->wn == WN_UNKNOWN) {
    /* One or both of the week numbers is unspecified.  Assume times
       are within +/- 0.5 weeks of each other. */
    if (dt > WEEK_SECS / 2) {
      dt -= WEEK_SECS;
    }
    if (dt < -WEEK_SECS / 2) {
      dt += WEEK_SECS;
    }
  } else {
    /* Week numbers were provided - use them. */
    dt += ((double)end->wn - beginning->wn) * WEEK_SECS;
  }
  return dt;''', '''  const bool both_known = (beginning->wn != WN_UNKNOWN) && (end->wn != WN_UNKNOWN);
  double dt = end->tow - beginning->tow;
  if (both_known) {
    const s32 weeks = (s32)end->wn - (s32)beginning->wn;
    return dt + weeks * (double)WEEK_SECS;
  }
  const double half = WEEK_SECS / 2;
  if (dt > half) {
    return dt - WEEK_SECS;
  }
  return (dt < -half) ? dt + WEEK_SECS : dt;''')], 'gpsdifftime')
R('match_round', T, [('''  t->wn = ref->wn;
  double dt = t->tow - ref->tow;
  if (dt > WEEK_SECS / 2) {
    t->wn--;
  } else if (dt < -WEEK_SECS / 2) {
    t->wn++;
  }
''', '''  double dt = t->tow - ref->tow;
  s16 adjust = 0;
  if (fabs(dt) > WEEK_SECS / 2) {
    adjust = (dt > 0) ? -1 : 1;
  }
  t->wn = ref->wn + adjust;
''')], 'gps_time_match_weeks_safe')
R('dur_sign', T, [('''  double sign_weeks = sign(dt->weeks);
  double sign_seconds = sign(dt->seconds);
  /* Detecting unequal signs by multiplication avoids float comparison: */
  if (sign_weeks * sign_seconds < -FLOAT_EQUALITY_EPS) {
    dt->weeks -= (s16)sign_weeks;
    dt->seconds += sign_weeks * WEEK_SECS;
  }''', '''  (void)sign;
  if (dt->weeks > 0 && dt->seconds < 0) {
    dt->weeks -= 1;
    dt->seconds += WEEK_SECS;
  } else if (dt->weeks < 0 && dt->seconds > 0) {
    dt->weeks += 1;
    dt->seconds -= WEEK_SECS;
  }''')], 'normalize_gps_time_duration')
R('utc_tm_div', T, [('''  u->hour = second_int / HOUR_SECS;     /* The hours (1 - 23) */
  second_int -= u->hour * HOUR_SECS;    /* Remove the hours from seconds */
  u->minute = second_int / MINUTE_SECS; /* The minutes (1 - 59) */
  second_int -= u->minute * MINUTE_SECS; /* Remove the minutes from seconds */
  u->second_int = second_int;            /* The seconds (1 - 60) */''', '''  u->hour = second_int / HOUR_SECS;
  u->minute = (second_int % HOUR_SECS) / MINUTE_SECS;
  u->second_int = second_int % MINUTE_SECS;'''), ('''  u->second_frac = fmod(t_utc, 1.0);    /* The fractional part of the seconds */''', '''  u->second_frac = t_utc - second_int;''')], 'make_utc_tm')
R('utc_tm_month', T, [('''  /* Roughly work out the month number */
  u8 month_guess = (u8)(u->year_day * 0.032);
''', ''), ('''  /* Check if our guess was out, and what the correction is, */
  /* 0 = correct, 1 = wrong */
  u8 month_correction =
      (u->year_day - days_after_month[leap_year][month_guess + 1]) > 0;

  /* Calculate the corrected number of months */
  u->month = month_guess + month_correction + 1;

  /* Calculate the day of the month */
  u->month_day =
      u->year_day - days_after_month[leap_year][month_guess + month_correction];''', '''  u8 month = 1;
  while (u->year_day > days_after_month[leap_year][month]) {
    month++;
  }
  u->month = month;
  u->month_day = u->year_day - days_after_month[leap_year][month - 1];''')], 'make_utc_tm')
I = 'src/ionosphere.c'
R('klob_horner', I, [('''  double amp = i->a0 + lat_m * (i->a1 + lat_m * (i->a2 + i->a3 * lat_m));
  if (amp < 0.0) {
    amp = 0.0;
  }''', '''  double amp = fmax(0.0, cubic(i->a0, i->a1, i->a2, i->a3, lat_m));'''), ('''  double per = i->b0 + lat_m * (i->b1 + lat_m * (i->b2 + i->b3 * lat_m));
  if (per < 72000.0) {
    per = 72000.0;
  }''', '''  double per = cubic(i->b0, i->b1, i->b2, i->b3, lat_m);
  per = (per < 72000.0) ? 72000.0 : per;'''), ('''double calc_ionosphere(const gps''', '''static double cubic(double c0, double c1, double c2, double c3, double x) {
  double r = c0;
  r += c1 * x;
  r += c2 * x * x;
  r += c3 * x * x * x;
  return r;
}

double calc_ionosphere(const gps'''), ('''  double d_l1;
  if (fabs(x) >= 1.57) {
    d_l1 = sf * 5e-9;
  } else {
    double x_2 = x * x;
    d_l1 = sf * (5e-9 + amp * (1.0 - x_2 / 2.0 + x_2 * x_2 / 24.0));
  }

  d_l1 *= GPS_C;

  return d_l1;''', '''  double delay = 5e-9;
  if (x > -1.57 && x < 1.57) {
    const double x_2 = x * x;
    delay += amp * (1.0 + x_2 * (x_2 / 24.0 - 0.5));
  }
  return sf * delay * GPS_C;''')], 'calc_ionosphere')
R('iono_bytes', I, [('''    /* Word 3 bits 9-16 */
    i->a0 = (s8)(words[3 - 3] >> (30 - 16) & 0xFF) * GPS_LNAV_IONO_SF_A0;
    /* Word 3 bits 17-24 */
    i->a1 = (s8)(words[3 - 3] >> (30 - 24) & 0xFF) * GPS_LNAV_IONO_SF_A1;''', '''    const s8 a01[2] = {(s8)byte_at(words[0], 8), (s8)byte_at(words[0], 16)};
    i->a1 = a01[1] * GPS_LNAV_IONO_SF_A1;
    i->a0 = a01[0] * GPS_LNAV_IONO_SF_A0;'''), ('''bool decode_iono_parameters(''', '''static u8 byte_at(u32 word, u8 first) { return (u8)(word >> (22 - first)); }

bool decode_iono_parameters('''), ('''  bool retval = false;

  assert(NULL != words);''', '''  assert(NULL != words);'''), ('''  if (GPS_LNAV_ALM_DATA_ID_BLOCK_II == data_id &&
      GPS_LNAV_ALM_SVID_IONO == sv_id) {''', '''  const bool found = GPS_LNAV_ALM_DATA_ID_BLOCK_II == data_id && GPS_LNAV_ALM_SVID_IONO == sv_id;
  if (!found) {
    return false;
  }
  {'''), ('''    retval = true;
  }

  return retval;''', '''  }

  return true;''')], 'decode_iono_parameters')
R('bds_iono', I, [('''  s8 beta[4];
  beta[0] = (((sf1_word[5]) >> 8) & 0x3f) << 2;
  beta[0] |= (((sf1_word[6]) >> 28) & 0x3);
  beta[1] = (((sf1_word[6]) >> 20) & 0xff);
  beta[2] = (((sf1_word[6]) >> 12) & 0xff);
  beta[3] = (((sf1_word[6]) >> 8) & 0xf) << 4;
  beta[3] |= (((sf1_word[7]) >> 26) & 0xf);
''', '''  const u32 w6 = sf1_word[6];
  const s8 beta[4] = {(s8)(((sf1_word[5] >> 6) & 0xfc) | ((w6 >> 28) & 3)), (s8)(w6 >> 20), (s8)(w6 >> 12), (s8)(((w6 >> 4) & 0xf0) + ((sf1_word[7] >> 26) & 0xf))};
''')], 'decode_bds_d1_iono')
R('tropo_struct', 'src/troposphere.c', [('''  u8 i = (u8)((lat - 15.0) / 15.0);
  double lat_i = i * 15.0 + 15.0;
  return lut[i] + (lut[i + 1] - lut[i]) / 15.0 * (lat - lat_i);''', '''  const double pos = lat / 15.0 - 1.0;
  u8 i = 0;
  while (i < 3 && pos >= i + 1) {
    i++;
  }
  const double frac = pos - i;
  return (1.0 - frac) * lut[i] + frac * lut[i + 1];'''), ('''  double mhf_top = 1.0 + mhf_a / (1.0 + mhf_b / (1.0 + mhf_c));
  double mhf_bot = sin_el + mhf_a / (sin_el + mhf_b / (sin_el + mhf_c));
  double mhf = mhf_top / mhf_bot;''', '''  double mhf = neill(mhf_a, mhf_b, mhf_c, sin_el);'''), ('''  double mwf_top = 1.0 + mwf_a / (1.0 + mwf_b / (1.0 + mwf_c));
  double mwf_bot = sin_el + mwf_a / (sin_el + mwf_b / (sin_el + mwf_c));
  double mwf = mwf_top / mwf_bot;''', '''  double mwf = neill(mwf_a, mwf_b, mwf_c, sin_el);'''), ('''double calc_troposphere(const''', '''static double fraction(double a, double b, double c, double x) { return x + a / (x + b / (x + c)); }
static double neill(double a, double b, double c, double s) { return fraction(a, b, c, 1.0) / fraction(a, b, c, s); }

double calc_troposphere(const''')], 'calc_troposphere')
C = 'src/coord_system.c'
R('llh2ecef', C, [('''  double d = WGS84_E * sin(llh[0]);
  double N = WGS84_A / sqrt(1. - d * d);

  ecef[0] = (N + llh[2]) * cos(llh[0]) * cos(llh[1]);
  ecef[1] = (N + llh[2]) * cos(llh[0]) * sin(llh[1]);
  ecef[2] = ((1 - WGS84_E * WGS84_E) * N + llh[2]) * sin(llh[0]);''', '''  const double sin_lat = sin(llh[0]), cos_lat = cos(llh[0]);
  const double e2 = WGS84_E * WGS84_E;
  const double N = WGS84_A / sqrt(1. - e2 * sin_lat * sin_lat);
  const double rho = (N + llh[2]) * cos_lat;

  ecef[2] = (N - e2 * N + llh[2]) * sin_lat;
  ecef[1] = rho * sin(llh[1]);
  ecef[0] = rho * cos(llh[1]);''')], 'wgsllh2ecef')
R('fuku_helper', C, [('''    A_n = sqrt(S * S + C * C);
    D_n = Z * A_n * A_n * A_n + WGS84_E * WGS84_E * S * S * S;
    F_n = P * A_n * A_n * A_n - WGS84_E * WGS84_E * C * C * C;
    B_n = 1.5 * WGS84_E * S * C * C * (A_n * (P * S - Z * C) - WGS84_E * S * C);

    /* Update step. */
    S = D_n * F_n - B_n * S;
    C = F_n * F_n - B_n * C;
''', '''    step(P, Z, &S, &C);
'''), ('''  double A_n, B_n, D_n, F_n;
''', ''), ('''  A_n = sqrt(S * S + C * C);
  llh[0]''', '''  const double A_n = sqrt(S * S + C * C);
  llh[0]'''), ('''void wgsecef2llh(''', '''static void step(double P, double Z, double *s, double *c) {
  const double S = *s, C = *c, e2 = WGS84_E * WGS84_E;
  const double A = sqrt(S * S + C * C);
  const double A3 = A * A * A;
  const double D = Z * A3 + e2 * S * S * S;
  const double F = P * A3 - e2 * C * C * C;
  const double B = 1.5 * WGS84_E * S * C * C * (A * (P * S - Z * C) - WGS84_E * S * C);
  *s = D * F - B * S;
  *c = F * F - B * C;
}

void wgsecef2llh('''), ('''    if (fabs(S - prev_S) < 1e-16 && fabs(C - prev_C) < 1e-16) {
      break;
    }
    prev_S = S;
    prev_C = C;
  }''', '''    const bool settled = fabs(S - prev_S) < 1e-16 && fabs(C - prev_C) < 1e-16;
    prev_S = S;
    prev_C = C;
    if (settled) {
      break;
    }
  }''')], 'wgsecef2llh')
R('fuku_while', C, [('''  for (int i = 0; i < 10; i++) {''', '''  int left = 10;
  bool done = false;
  while (!done && left-- > 0) {'''), ('''    if (fabs(S - prev_S) < 1e-16 && fabs(C - prev_C) < 1e-16) {
      break;
    }
    prev_S = S;''', '''    done = fabs(S - prev_S) < 1e-16 && fabs(C - prev_C) < 1e-16;
    prev_S = S;''')], 'wgsecef2llh')
R('ned_direct', C, [('''  double M[3][3], M_transpose[3][3];
  ecef2ned_matrix(ref_ecef, M);
  matrix_transpose(3, 3, (double *)M, (double *)M_transpose);
  matrix_multiply(3, 3, 1, (double *)M_transpose, ned, ecef);''', '''  double M[3][3];
  ecef2ned_matrix(ref_ecef, M);
  for (int i = 0; i < 3; i++) {
    ecef[i] = M[0][i] * ned[0] + M[1][i] * ned[1] + M[2][i] * ned[2];
  }'''), ('''  *azimuth = atan2(ned[1], ned[0]);
  /* atan2 returns angle in range [-pi, pi], usually azimuth is defined in the
   * range [0, 2pi]. */
  if (*azimuth < 0) {
    *azimuth += 2 * M_PI;
  }
''', '''  const double az = atan2(ned[1], ned[0]);
  *azimuth = (az < 0) ? az + 2 * M_PI : az;
''')], 'wgsned2ecef wgsecef2azel')
