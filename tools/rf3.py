RF = []
def R(*a): RF.append(a)
E = 'src/ephemeris.c'
R('kepler_helper', E, [('''  double ea = ma; /* Starting value for E. */
  double ea_old;
  double temp;
  double ecc = k->ecc;
  u8 count = 0;
''', '''  double temp;
  double ecc = k->ecc;
'''), ('''  do {
    ea_old = ea;
    temp = 1.0 - ecc * cos(ea_old);
    ea = ea + (ma - ea_old + ecc * sin(ea_old)) / temp;
    count++;
    if (count > 5) {
      break;
    }
  } while (fabs(ea - ea_old) > 1.0E-14);
''', '''  double ea = solve_kepler(ma, ecc, &temp);
'''), ('''static void rotate_geo_to_bdcs(''', '''static double solve_kepler(double ma, double ecc, double *slope) {
  double ea = ma;
  double last;
  int left = 6;
  do {
    last = ea;
    *slope = 1.0 - ecc * cos(last);
    ea += (ma - last + ecc * sin(last)) / *slope;
    left--;
  } while (left > 0 && fabs(ea - last) > 1.0E-14);
  return ea;
}

static void rotate_geo_to_bdcs(''')], 'calc_sat_state_kepler')
R('kepler_hoist', E, [('''  double x = r * cos(cal);
  double y = r * sin(cal);
  double x_dot = r_dot * cos(cal) - y * cal_dot;
  double y_dot = r_dot * sin(cal) + x * cal_dot;
''', '''  const double cc = cos(cal);
  const double sc = sin(cal);
  const double x = r * cc;
  const double y = r * sc;
  const double x_dot = cc * r_dot - cal_dot * y;
  const double y_dot = sc * r_dot + cal_dot * x;
'''), ('''  pos[0] = x * cos(om) - y * cos(inc) * sin(om);
  pos[1] = x * sin(om) + y * cos(inc) * cos(om);
  pos[2] = y * sin(inc);
''', '''  const double ci = cos(inc);
  const double si = sin(inc);
  const double yci = y * ci;
  pos[2] = y * si;
  pos[1] = yci * cos(om) + x * sin(om);
  pos[0] = x * cos(om) - yci * sin(om);
'''), ('''  temp = y_dot * cos(inc) - y * sin(inc) * inc_dot;''', '''  temp = ci * y_dot - si * y * inc_dot;''')], 'calc_sat_state_kepler')
R('kepler_gm', E, [('''  double gm;
  switch (sid_to_constellation(e->sid)) {
    case CONSTELLATION_GPS:
    case CONSTELLATION_QZS:
      gm = GPS_GM;
      break;
    case CONSTELLATION_BDS:
      gm = BDS2_GM;
      break;
    case CONSTELLATION_GAL:
      gm = GAL_GM;
      break;
    case CONSTELLATION_SBAS:
    case CONSTELLATION_GLO:
    case CONSTELLATION_COUNT:
    case CONSTELLATION_INVALID:
    default:
      log_error("Unknown constellation %d in Keplerian ephemeris computation",
                sid_to_constellation(e->sid));
      return -1;
  }
''', '''  double gm;
  const constellation_t cons = sid_to_constellation(e->sid);
  if (cons == CONSTELLATION_GPS || cons == CONSTELLATION_QZS) {
    gm = GPS_GM;
  } else if (cons == CONSTELLATION_BDS) {
    gm = BDS2_GM;
  } else if (cons == CONSTELLATION_GAL) {
    gm = GAL_GM;
  } else {
    log_error("Unknown constellation %d in Keplerian ephemeris computation",
              cons);
    return -1;
  }
'''), ('''  double dr = (k->crs * sin2al + k->crc * cos2al);
''', '''  double dr = (k->crc * cos2al + k->crs * sin2al);
'''), ('''  double r = a * temp + k->crc * cos2al + k->crs * sin2al;
  double r_dot = a * ecc * sin(ea) * ea_dot +
                 2.0 * al_dot * (k->crs * cos2al - k->crc * sin2al);
''', '''  double r = dr + a * temp;
  double r_dot = dr_dot + a * ecc * sin(ea) * ea_dot;
''')], 'calc_sat_state_kepler')
R('glo_rk_loop', E, [('''      memcpy(k1, ecef_vel_acc, sizeof(k1));

      for (j = 0; j < 6; j++) {
        y_tmp[j] = y[j] + h / 2 * k1[j];
      }

      calc_ecef_vel_acc(k2, &y_tmp[0], &y_tmp[3], e->data.glo.acc);

      for (j = 0; j < 6; j++) {
        y_tmp[j] = y[j] + h / 2 * k2[j];
      }

      calc_ecef_vel_acc(k3, &y_tmp[0], &y_tmp[3], e->data.glo.acc);

      for (j = 0; j < 6; j++) {
        y_tmp[j] = y[j] + h * k3[j];
      }

      calc_ecef_vel_acc(k4, &y_tmp[0], &y_tmp[3], e->data.glo.acc);

      for (j = 0; j < 6; j++) {
        y[j] += h / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]);
      }
''', '''      for (j = 0; j < 6; j++) {
        k1[j] = ecef_vel_acc[j];
      }
      rk_slope(k2, y, k1, h / 2, e->data.glo.acc, y_tmp);
      rk_slope(k3, y, k2, h / 2, e->data.glo.acc, y_tmp);
      rk_slope(k4, y, k3, h, e->data.glo.acc, y_tmp);
      for (j = 6; j > 0; j--) {
        const double mid = k2[j - 1] + k3[j - 1];
        y[j - 1] += h * (k1[j - 1] + 2 * mid + k4[j - 1]) / 6;
      }
'''), ('''static s8 calc_sat_state_glo(const ephemeris_t *e,
                             const gps_time_t *t,''', '''static void rk_slope(double out[6], const double y[6], const double k[6],
                     double h, const double acc[3], double tmp[6]) {
  const double *const stop = y + 6;
  double *w = tmp;
  while (y < stop) {
    *w++ = *y++ + *k++ * h;
  }
  calc_ecef_vel_acc(out, tmp, tmp + 3, acc);
}

static s8 calc_sat_state_glo(const ephemeris_t *e,
                             const gps_time_t *t,''')], 'calc_sat_state_glo')
R('glo_acc_alg', E, [('''  double r = sqrt(pos[0] * pos[0] + pos[1] * pos[1] + pos[2] * pos[2]);

  double m_r3 = GLO_GM / (r * r * r);
  double inv_r2 = 1 / (r * r);
''', '''  double r2 = pos[0] * pos[0] + pos[1] * pos[1] + pos[2] * pos[2];
  double inv_r2 = 1 / r2;
  double m_r3 = GLO_GM * inv_r2 / sqrt(r2);
'''), ('''  vel_acc[0] = vel[0];
  vel_acc[1] = vel[1];
  vel_acc[2] = vel[2];
''', '''  memcpy(vel_acc, vel, 3 * sizeof(double));
'''), ('''  vel_acc[3] = -m_r3 * pos[0] - g_term * pos[0] * lg_term + omega_sqr * pos[0] +
               2.0 * GLO_OMEGAE_DOT * vel[1] + acc[0];

  vel_acc[4] = -m_r3 * pos[1] - g_term * pos[1] * lg_term + omega_sqr * pos[1] -
               2.0 * GLO_OMEGAE_DOT * vel[0] + acc[1];
''', '''  const double radial = omega_sqr - m_r3 - g_term * lg_term;
  for (int i = 0; i < 2; i++) {
    const double coriolis = 2.0 * GLO_OMEGAE_DOT * vel[1 - i];
    vel_acc[3 + i] = radial * pos[i] + acc[i] + (i == 0 ? coriolis : -coriolis);
  }
''')], 'calc_sat_state_glo calc_ecef_vel_acc')
R('glo_steps', E, [('''  u32 num_steps = (u32)ceil(fabs(dt) / GLO_MAX_STEP_LENGTH);
  num_steps = MIN(num_steps, GLO_MAX_STEP_NUM);
''', '''  u32 num_steps = (u32)ceil(fabs(dt) / GLO_MAX_STEP_LENGTH);
  if (num_steps > GLO_MAX_STEP_NUM) {
    num_steps = GLO_MAX_STEP_NUM;
  }
'''), ('''  if (num_steps) {
    double h = dt / num_steps;
''', '''  if (num_steps > 0) {
    const double h = dt / (double)num_steps;
'''), ('''    for (u32 i = 0; i < num_steps; i++) {
      double k1''', '''    for (u32 left = num_steps; left != 0; --left) {
      double k1''')], 'calc_sat_state_glo')
R('eph_valid_time', E, [('''  const gps_time_t *toc = NULL;
  if (IS_GPS(e->sid) || IS_QZSS(e->sid)) {
    /* TOE is a middle of ephemeris validity interval */
    bgn.tow -= e->fit_interval / 2;
    end.tow += e->fit_interval / 2;
    toc = &e->data.kepler.toc;
  } else if (IS_BDS2(e->sid) || IS_GAL(e->sid)) {
    /* TOE is the beginning of ephemeris validity interval */
    end.tow += e->fit_interval;
    toc = &e->data.kepler.toc;
  } else if (IS_GLO(e->sid)) {
    /* TOE is a middle of ephemeris validity interval */
    bgn.tow -= e->fit_interval / 2;
    end.tow += e->fit_interval / 2;
  } else if (IS_SBAS(e->sid)) {
    return 1;
  } else {
    assert(0);
    return 0;
  }
''', '''  const gps_time_t *toc = &e->data.kepler.toc;
  const u32 half = e->fit_interval >> 1;
  u32 before = half;
  u32 after = half;
  switch (sid_to_constellation(e->sid)) {
    case CONSTELLATION_GPS:
    case CONSTELLATION_QZS:
      break;
    case CONSTELLATION_BDS:
    case CONSTELLATION_GAL:
      before = 0;
      after = e->fit_interval;
      break;
    case CONSTELLATION_GLO:
      toc = NULL;
      break;
    case CONSTELLATION_SBAS:
      return 1;
    case CONSTELLATION_INVALID:
    case CONSTELLATION_COUNT:
    default:
      assert(0);
      return 0;
  }
  bgn.tow -= before;
  end.tow += after;
'''), ('''  if (toc != NULL) {
    if (toc->wn == 0) {
      return 0;
    }

    if (!gpstime_in_range(bgn, end, toc)) {
      return 0;
    }
  }

  return 1;''', '''  return toc == NULL || (toc->wn != 0 && gpstime_in_range(bgn, end, toc));''')], 'ephemeris_valid_at_time ephemeris_params_valid ephemeris_valid ephemeris_valid_detailed')
R('fake_wns', E, [('''  if (dt_s > (WEEK_SECS / 2)) {
    if (WN_UNKNOWN == t1->wn) {
      t1->wn = MAX(t2->wn - 1, 0);
    } else {
      t2->wn = t1->wn + 1;
    }
  } else if (dt_s < (-WEEK_SECS / 2)) {
    if (WN_UNKNOWN == t1->wn) {
      t1->wn = t2->wn + 1;
    } else {
      t2->wn = MAX(t1->wn - 1, 0);
    }
  } else if (WN_UNKNOWN == t1->wn) {
    t1->wn = t2->wn;
  } else {
    assert(WN_UNKNOWN == t2->wn);
    t2->wn = t1->wn;
  }''', '''  int shift = 0; /* week of t2 minus week of t1 */
  if (dt_s > (WEEK_SECS / 2)) {
    shift = 1;
  } else if (dt_s < (-WEEK_SECS / 2)) {
    shift = -1;
  }
  if (WN_UNKNOWN == t1->wn) {
    const int wn = t2->wn - shift;
    t1->wn = wn < 0 ? 0 : wn;
  } else {
    const int wn = t1->wn + shift;
    t2->wn = wn < 0 ? 0 : wn;
  }''')], 'ephemeris_valid_at_time fake_gps_wns')
R('eph_status', E, [('''  if (e == NULL) {
    return EPH_NULL;
  }
  if (!e->valid) {
    return EPH_INVALID;
  }
  if (e->toe.wn == 0) {
    return EPH_WN_EQ_0; /* ephemeris did not get timestamped when it was
                           received */
  }
  if (0 == e->fit_interval) {
    return EPH_FIT_INTERVAL_EQ_0;
  }
  if (!code_valid(e->sid.code)) {
    return EPH_INVALID_SID;
  }
''', '''  ephemeris_status_t early = EPH_VALID;
  if (e == NULL) {
    early = EPH_NULL;
  } else if (!e->valid) {
    early = EPH_INVALID;
  } else if (e->toe.wn == 0) {
    early = EPH_WN_EQ_0;
  } else if (e->fit_interval == 0) {
    early = EPH_FIT_INTERVAL_EQ_0;
  } else if (!code_valid(e->sid.code)) {
    early = EPH_INVALID_SID;
  }
  if (early != EPH_VALID) {
    return early;
  }
'''), ('''    case CONSTELLATION_GPS:
    case CONSTELLATION_QZS:
      if (e->data.kepler.iodc > GPS_IODC_MAX ||
          e->data.kepler.iode > GPS_IODE_MAX ||
          (e->data.kepler.iodc & GPS_IODE_MAX) !=
              (e->data.kepler.iode & GPS_IODE_MAX)) {
        return EPH_INVALID_IOD;
      }
      break;''', '''    case CONSTELLATION_GPS:
    case CONSTELLATION_QZS: {
      const u16 iodc = e->data.kepler.iodc;
      const u16 iode = e->data.kepler.iode;
      bool good = iodc <= GPS_IODC_MAX;
      good = good && iode <= GPS_IODE_MAX;
      good = good && (((iodc ^ iode) & GPS_IODE_MAX) == 0);
      if (!good) {
        return EPH_INVALID_IOD;
      }
      break;
    }''')], 'get_ephemeris_status_t')
R('encode_ura_while', E, [('''  for (u8 i = 0; i < URA_VALUE_TABLE_LEN; i++) {
    if (gps_ura_values[i] >= ura) {
      return i;
    }
  }

  /* No valid URA index found */
  return INVALID_GPS_URA_INDEX;''', '''  const float *p = gps_ura_values;
  const float *const end = gps_ura_values + URA_VALUE_TABLE_LEN;
  while (p != end && !(*p >= ura)) {
    p++;
  }
  return p == end ? INVALID_GPS_URA_INDEX : (u8)(p - gps_ura_values);''')], 'encode_ura')
R('fit_table', E, [('''  u8 fit_interval = 4; /* This is in hours */

  if (fit_interval_flag) {
    fit_interval = 6;

    if ((iodc >= 240) && (iodc <= 247)) {
      fit_interval = 8;
    } else if (((iodc >= 248) && (iodc <= 255)) || (iodc == 496)) {
      fit_interval = 14;
    } else if (((iodc >= 497) && (iodc <= 503)) ||
               ((iodc >= 1021) && (iodc <= 1023))) {
      fit_interval = 26;
    } else if ((iodc >= 504) && (iodc <= 510)) {
      fit_interval = 50;
    } else if ((iodc == 511) || ((iodc >= 752) && (iodc <= 756))) {
      fit_interval = 74;
    } else if (iodc == 757) {
      fit_interval = 98;
    }
  }

  return fit_interval * 60 * 60;''', '''  static const struct {
    u16 from;
    u16 to;
    u8 hours;
  } table[] = {
      {240, 247, 8},
      {248, 255, 14},
      {496, 496, 14},
      {497, 503, 26},
      {504, 510, 50},
      {511, 511, 74},
      {752, 756, 74},
      {757, 757, 98},
      {1021, 1023, 26},
  };
  u32 hours = fit_interval_flag ? 6 : 4;
  for (size_t i = 0; fit_interval_flag && i < sizeof(table) / sizeof(table[0]); i++) {
    if (iodc >= table[i].from && iodc <= table[i].to) {
      hours = table[i].hours;
      break;
    }
  }
  return hours * 3600;''')], 'decode_fit_interval')
R('lnav_fields', E, [('''  /* m0: Word 4, bits 17-24 and word 5, bits 1-24 */
  k->m0 = (s32)(((frame_words[1][4 - 3] >> (30 - 24) & 0xFF) << 24) |
                (frame_words[1][5 - 3] >> (30 - 24) & 0xFFFFFF)) *
          (GPS_LNAV_EPH_SF_M0 * GPS_PI);
''', '''  k->m0 = (s32)lnav_long(&frame_words[1][4 - 3]) *
          (GPS_LNAV_EPH_SF_M0 * GPS_PI);
'''), ('''  k->ecc = (u32)(((frame_words[1][6 - 3] >> (30 - 24) & 0xFF) << 24) |
                 (frame_words[1][7 - 3] >> (30 - 24) & 0xFFFFFF)) *
           GPS_LNAV_EPH_SF_ECC;
''', '''  k->ecc = lnav_long(&frame_words[1][6 - 3]) * GPS_LNAV_EPH_SF_ECC;
'''), ('''  k->af0 = sign_extend22(frame_words[0][10 - 3] >> (30 - 22) & 0x3FFFFF) *
           GPS_LNAV_EPH_SF_AF0;
''', '''  {
    s32 raw = (s32)(frame_words[0][10 - 3] >> 8 & 0x3FFFFF);
    if (raw >= 1 << 21) {
      raw -= 1 << 22;
    }
    k->af0 = raw * GPS_LNAV_EPH_SF_AF0;
  }
'''), ('''  bool iode_valid = (iode_sf2 == k->iode) && (k->iode == (k->iodc & 0xFF));
''', '''  bool iode_valid = (((iode_sf2 ^ k->iode) | ((k->iodc & 0xFF) ^ k->iode)) == 0);
'''), ('''static s8 calc_sat_state_xyz(const ephemeris_t *e,''', '''static u32 lnav_long(const u32 w[2]) {
  const u32 high = (w[0] >> 6) & 0xFF;
  const u32 low = (w[1] >> 6) & 0xFFFFFF;
  return high * 0x1000000u + low;
}

static s8 calc_sat_state_xyz(const ephemeris_t *e,''')], 'decode_ephemeris_with_wn_ref decode_ephemeris')
R('bds_join', E, [('''  u32 deltan = (((sf2_word[1]) >> 8) & 0x3ff) << 6;
  deltan |= (((sf2_word[2]) >> 24) & 0x3f);
  u32 cuc = (((sf2_word[2]) >> 8) & 0xffff) << 2;
  cuc |= (((sf2_word[3]) >> 28) & 0x3);
  u32 m0 = (((sf2_word[3]) >> 8) & 0xfffff) << 12;
  m0 |= (((sf2_word[4]) >> 18) & 0xfff);
  u32 ecc = (((sf2_word[4]) >> 8) & 0x3ff) << 22;
  ecc |= (((sf2_word[5]) >> 8) & 0x3fffff);
''', '''  u32 deltan = bds_split(sf2_word + 1, 10, 6);
  u32 cuc = bds_split(sf2_word + 2, 16, 2);
  u32 m0 = bds_split(sf2_word + 3, 20, 12);
  u32 ecc = bds_split(sf2_word + 4, 10, 22);
'''), ('''  k->m0 = BITS_SIGN_EXTEND_32(32, m0) * C_1_2P31 * GPS_PI;
  k->ecc = ecc * C_1_2P33;
  k->cus''', '''  k->m0 = (s32)m0 * C_1_2P31 * GPS_PI;
  k->ecc = C_1_2P33 * (double)ecc;
  k->cus'''), ('''static s8 calc_sat_state_xyz(const ephemeris_t *e,''', '''static u32 bds_split(const u32 *w, unsigned high, unsigned low) {
  const u32 head = (w[0] >> 8) & ((1u << high) - 1);
  const u32 tail = (w[1] & 0x3fffffff) >> (30 - low);
  return (head << low) + tail;
}

static s8 calc_sat_state_xyz(const ephemeris_t *e,''')], 'decode_bds_d1_ephemeris')
R('gal_seq', E, [('''  u32 omega0 = getbitu(page[1], 16, 32);
  u32 i0 = getbitu(page[1], 48, 32);
  u32 omega = getbitu(page[1], 80, 32);
  u32 idot = getbitu(page[1], 112, 14);
  kep->omega0 = BITS_SIGN_EXTEND_32(32, omega0) * C_1_2P31 * GPS_PI;
  kep->inc = BITS_SIGN_EXTEND_32(32, i0) * C_1_2P31 * GPS_PI;
  kep->w = BITS_SIGN_EXTEND_32(32, omega) * C_1_2P31 * GPS_PI;
  kep->inc_dot = BITS_SIGN_EXTEND_32(14, idot) * C_1_2P43 * GPS_PI;
''', '''  u32 pos = 16;
  double *const angles[3] = {&kep->omega0, &kep->inc, &kep->w};
  for (int i = 0; i < 3; i++, pos += 32) {
    *angles[i] = getbits(page[1], pos, 32) * C_1_2P31 * GPS_PI;
  }
  kep->inc_dot = getbits(page[1], pos, 14) * C_1_2P43 * GPS_PI;
'''), ('''  if (!gps_time_match_weeks_safe(&eph->toe, &t)) {
    return false;
  }
  if (!gps_time_match_weeks_safe(&kep->toc, &t)) {
    return false;
  }

  eph->source = EPH_SOURCE_GAL_INAV;

  return true;''', '''  const bool ok = gps_time_match_weeks_safe(&eph->toe, &t) &&
                  gps_time_match_weeks_safe(&kep->toc, &t);
  if (ok) {
    eph->source = EPH_SOURCE_GAL_INAV;
  }
  return ok;''')], 'decode_gal_ephemeris_safe')
R('xyz_eq_loop', E, [('''  return fabs(a->pos[0] - b->pos[0]) < FLOAT_EQUALITY_EPS &&
         fabs(a->pos[1] - b->pos[1]) < FLOAT_EQUALITY_EPS &&
         fabs(a->pos[2] - b->pos[2]) < FLOAT_EQUALITY_EPS &&
         fabs(a->vel[0] - b->vel[0]) < FLOAT_EQUALITY_EPS &&
         fabs(a->vel[1] - b->vel[1]) < FLOAT_EQUALITY_EPS &&
         fabs(a->vel[2] - b->vel[2]) < FLOAT_EQUALITY_EPS &&
         fabs(a->acc[0] - b->acc[0]) < FLOAT_EQUALITY_EPS &&
         fabs(a->acc[1] - b->acc[1]) < FLOAT_EQUALITY_EPS &&
         fabs(a->acc[2] - b->acc[2]) < FLOAT_EQUALITY_EPS &&
         fabs(a->a_gf0 - b->a_gf0) < FLOAT_EQUALITY_EPS &&
         fabs(a->a_gf1 - b->a_gf1) < FLOAT_EQUALITY_EPS;''', '''  for (size_t i = 0; i < 3; i++) {
    if (!(fabs(b->pos[i] - a->pos[i]) < FLOAT_EQUALITY_EPS)) {
      return false;
    }
    if (!(fabs(a->vel[i] - b->vel[i]) < FLOAT_EQUALITY_EPS)) {
      return false;
    }
    if (!(fabs(a->acc[i] - b->acc[i]) < FLOAT_EQUALITY_EPS)) {
      return false;
    }
  }
  return fabs(a->a_gf1 - b->a_gf1) < FLOAT_EQUALITY_EPS &&
         fabs(a->a_gf0 - b->a_gf0) < FLOAT_EQUALITY_EPS;''')], 'ephemeris_xyz_equal ephemeris_equal')
R('healthy_ret', E, [('''  bool ret = true;

  if (!ephe->valid) {
    /* If we don't yet have an ephemeris, assume satellite is healthy */
    /* Otherwise we will stop tracking the sat and never find out */
    return ret;
  }

  switch (code_to_constellation(code)) {
    case CONSTELLATION_GPS:
      if (encode_ura(ephe->ura) > MAX_ALLOWED_GPS_URA_IDX) {
        ret = false;
        /* Satellite is not healthy, no reason to check further */
        break;
      }

      ret = check_6bit_health_word(ephe->health_bits, code);

      break;

    case CONSTELLATION_GLO:
    case CONSTELLATION_BDS:
    case CONSTELLATION_GAL:
      if (!URA_VALID(ephe->ura)) {
        ret = false;
        /* Satellite is not healthy, no reason to check further */
        break;
      }

      ret = (0 == ephe->health_bits);

      break;

    case CONSTELLATION_SBAS:
    case CONSTELLATION_QZS:
      ret = (0 == ephe->health_bits);
      break;

    case CONSTELLATION_INVALID:
    case CONSTELLATION_COUNT:
    default:
      assert(!"Unsupported constellation");
      ret = false;
      break;
  }

  return ret;''', '''  if (!ephe->valid) {
    return true;
  }
  const bool bits_clear = !ephe->health_bits;
  switch (code_to_constellation(code)) {
    case CONSTELLATION_GPS:
      return encode_ura(ephe->ura) <= MAX_ALLOWED_GPS_URA_IDX &&
             check_6bit_health_word(ephe->health_bits, code);
    case CONSTELLATION_SBAS:
    case CONSTELLATION_QZS:
      return bits_clear;
    case CONSTELLATION_GLO:
    case CONSTELLATION_BDS:
    case CONSTELLATION_GAL:
      return bits_clear && URA_VALID(ephe->ura);
    case CONSTELLATION_INVALID:
    case CONSTELLATION_COUNT:
    default:
      break;
  }
  assert(!"Unsupported constellation");
  return false;''')], 'ephemeris_healthy')
A = 'src/almanac.c'
R('alm_assign', A, [('''  ephemeris_t e;
  memset(&e, 0, sizeof(e));
  e.sid = a->sid;
  e.toe = a->toa;
  e.ura = a->ura;
  e.fit_interval = a->fit_interval;
  e.valid = a->valid;
  e.health_bits = a->health_bits;
  e.data.kepler.m0 = a->data.kepler.m0;''', '''  ephemeris_t e = {0};
  almanac_common(a, &e);
  e.data.kepler.m0 = a->data.kepler.m0;'''), ('''static s8 calc_sat_state_xyz_almanac(''', '''static void almanac_common(const almanac_t *a, ephemeris_t *e) {
  e->health_bits = a->health_bits;
  e->valid = a->valid;
  e->fit_interval = a->fit_interval;
  e->ura = a->ura;
  e->toe = a->toa;
  e->sid = a->sid;
}

static s8 calc_sat_state_xyz_almanac('''), ('''  double radial_velocity =
      vector_dot(3, vec_ref_sat, sat_vel) / vector_norm(3, vec_ref_sat);

  /* Return the Doppler shift. */
  *doppler = sid_to_carr_freq(a->sid) * radial_velocity / GPS_C;

  return 0;''', '''  vector_normalize(3, vec_ref_sat);
  *doppler = vector_dot(3, sat_vel, vec_ref_sat) / GPS_C;
  *doppler *= sid_to_carr_freq(a->sid);
  return ret;''')], 'calc_sat_state_kepler_almanac calc_sat_doppler_almanac')
R('alm_valid', A, [('''  if (!a->valid) {
    return 0;
  }

  if (!almanac_healthy(a)) {
    return 0;
  }

  if (a->fit_interval <= 0) {
    log_warn("almanac_valid used with 0 a->fit_interval");
    return 0;
  }

  /*
   * Almanac did not get time-stamped when it was received.
   */
  if (a->toa.wn == 0) {
    return 0;
  }
''', '''  if (!a->valid || !almanac_healthy(a) || a->toa.wn == 0) {
    return 0;
  }
  if (!a->fit_interval) {
    log_warn("almanac_valid used with 0 a->fit_interval");
    return 0;
  }
'''), ('''  if (fabs(dt) > (a->fit_interval / 2)) {
    return 0;
  }

  return 1;''', '''  const double half = a->fit_interval / 2;
  return !(dt > half || -dt > half);''')], 'almanac_valid')
G = 'src/decode_glo.c'
R('glo_extract_loop', G, [('''  bit_index--;
  u32 word = 0;
  u8 bix_hi = bit_index >> 5;
  u8 bix_lo = bit_index & 0x1F;
  if (bix_lo + n_bits <= 32) {
    word = string->word[bix_hi] >> bix_lo;
    word &= (0xffffffff << (32 - n_bits)) >> (32 - n_bits);
  } else {
    u8 s = 32 - bix_lo;
    word = extract_word_glo(string, bit_index + 1, s) |
           extract_word_glo(string, bit_index + 1 + s, n_bits - s) << s;
  }

  return word;''', '''  const u16 first = bit_index - 1;
  const u8 index = first / 32;
  const u8 shift = first % 32;
  u64 two = string->word[index];
  if (shift + n_bits > 32) {
    two |= (u64)string->word[index + 1] << 32;
  }
  return (u32)(two >> shift) & (0xffffffffU >> (32 - n_bits));''')], 'extract_word_glo')
R('glo_hamming', G, [('''    /* extract data bits and apply mask */
    data1 = extract_word_glo(string, 1, 32) & e_masks[i][0];
    data2 = extract_word_glo(string, 33, 32) & e_masks[i][1];
    data3 = extract_word_glo(string, 65, 32) & e_masks[i][2];
    /* calculate parity for data[1..3] */
    p1 = parity(data1);
    p2 = parity(data2);
    p3 = parity(data3);
    bool p = beta ^ p1 ^ p2 ^ p3;
''', '''    u32 all = 0;
    for (u8 w = 0; w < 3; w++) {
      all ^= extract_word_glo(string, 32 * w + 1, 32) & e_masks[i][w];
    }
    const bool p = (parity(all) != 0) != beta;
'''), ('''  /* case a) from ICD */
  if ((!c_sum && !bit_set) || (1 == bit_set && c_sum)) {
    return 0; /* The string is good */
  }

  /* case b) from ICD */
  if (bit_set > 1 && c_sum) {
    u8 i_corr = (c & 0x7f) + 8 - k; /* define number of bit to be corrected */

    if (i_corr > GLO_NAV_STR_BITS) {
      return -1; /* odd number of multiple errors, bad string */
    }

    return i_corr; /* return the bit to be corrected */
  }

  /* case c) from ICD */
  if ((bit_set > 0 && !c_sum) || (0 == bit_set && c_sum)) {
    return -1; /* multiple errors, bad string */
  }

  /* should not be here */
  log_error("GLO error correction: unexpected case");
  return -1;''', '''  if (!c_sum) {
    return bit_set ? -1 : 0;
  }
  switch (bit_set) {
    case 0:
      return -1;
    case 1:
      return 0;
    default: {
      const u8 i_corr = c + 8 - k;
      return i_corr <= GLO_NAV_STR_BITS ? (s8)i_corr : -1;
    }
  }''')], 'error_detection_glo')
R('glo_components', G, [('''  double pos_m = extract_word_glo(string, 9, 26) * C_1_2P11 * 1000.0;
  u8 sign = extract_word_glo(string, 9 + 26, 1);
  if (sign) {
    pos_m *= -1;
  }
  return pos_m;''', '''  return sign_magnitude(string, 9, 26) * C_1_2P11 * 1000.0;'''), ('''  double vel_mps = extract_word_glo(string, 41, 23) * C_1_2P20 * 1000.0;
  u8 sign = extract_word_glo(string, 41 + 23, 1);
  if (sign) {
    vel_mps *= -1;
  }
  return vel_mps;''', '''  return sign_magnitude(string, 41, 23) * (C_1_2P20 * 1000.0);'''), ('''static double decode_position_component(''', '''static double sign_magnitude(const glo_string_t *string, u16 at, u8 width) {
  const s32 magnitude = (s32)extract_word_glo(string, at, width);
  return extract_word_glo(string, at + width, 1) ? -magnitude : magnitude;
}

static double decode_position_component('''), ('''  if ((pos_m < -GLO_POS_MAX_M) || (GLO_POS_MAX_M < pos_m)) {
    log_debug_sid(eph->sid, "GLO-NAV-ERR: pos_x =%lf m", pos_m);''', '''  if (fabs(pos_m) > GLO_POS_MAX_M) {
    log_debug_sid(eph->sid, "GLO-NAV-ERR: pos_x =%lf m", pos_m);'''), ('''  toe->h = tb_s / HOUR_SECS;
  toe->m = (tb_s - toe->h * HOUR_SECS) / MINUTE_SECS;
  toe->s = tb_s - (toe->h * HOUR_SECS) - (toe->m * MINUTE_SECS);
''', '''  toe->h = tb_s / 3600;
  toe->m = tb_s % 3600 / 60;
  toe->s = 0;
''')], 'decode_glo_string_1 decode_glo_string_2 decode_position_component')
R('glo_fit', G, [('''  u32 fit_interval_s = MINUTE_SECS * p1_lookup_min[p1];
  if (fit_interval_s != 0) {
    return fit_interval_s + FIT_INTERVAL_MARGIN_S;
  }

  if (0 == eph->fit_interval) {
    /* We have not decoded any fit interval yet,
       So let's default to the maximum fit interval possible + a margin.
       The maximum fit interval is defined by the maximum value of P1,
       which is 60 minutes. Once we have a real value from P1 we will
       start using the real value. */
    fit_interval_s = MINUTE_SECS * 60 + FIT_INTERVAL_MARGIN_S;
  } else {
    fit_interval_s = eph->fit_interval;
  }

  return fit_interval_s;''', '''  u32 minutes = p1_lookup_min[p1];
  if (!minutes && eph->fit_interval) {
    return eph->fit_interval;
  }
  if (!minutes) {
    minutes = 60;
  }
  return minutes * 60 + FIT_INTERVAL_MARGIN_S;''')], 'decode_glo_string_1 compute_ephe_fit_interval')
S = 'src/single_epoch_solver.c'
R('pvt_sagnac', S, [('''  double wEtau = GPS_OMEGAE_DOT * tau;''', '''  const double angle = tau * GPS_OMEGAE_DOT;'''), ('''  sat_pos_new[0] = sat_pos[0] + wEtau * sat_pos[1];
  sat_pos_new[1] = sat_pos[1] - wEtau * sat_pos[0];
  sat_pos_new[2] = sat_pos[2];''', '''  const double dx = angle * sat_pos[1];
  const double dy = -angle * sat_pos[0];
  memcpy(sat_pos_new, sat_pos, 3 * sizeof(double));
  sat_pos_new[0] += dx;
  sat_pos_new[1] += dy;'''), ('''  vector_subtract(3, user_pos, nav_meas->sat_pos, line_of_sight);
  double tau = vector_norm(3, line_of_sight) / GPS_C;
''', '''  double tau = vector_distance(3, user_pos, nav_meas->sat_pos) / GPS_C;
''')], 'compute_predicted_pseudorange compute_predicted_doppler sagnac_rotation')
R('pvt_geom', S, [('''    for (u8 i = 0; i < 3; i++) {
      *(G + row + i) = -los[i];
    }

    /* Clear all the clock coefficients */
    for (u8 i = 3; i < n_states; i++) {
      *(G + row + i) = 0.0;
    }

    /* Projection of clock bias into each pseudorange is 1. */
    *(G + row + clock_map[sid_to_constellation(nav_meas[j]->sid)]) = 1;
''', '''    double *g = &G[row];
    const s8 clock = clock_map[sid_to_constellation(nav_meas[j]->sid)];
    for (u8 i = 0; i < n_states; i++) {
      g[i] = i < 3 ? -los[i] : (i == clock ? 1.0 : 0.0);
    }
'''), ('''  for (u8 i = 0; i < n_states; i++) {
    lsq_data->rx_state[i] += correction[i];
  }

  /* Look''', '''  vector_add(n_states, correction, lsq_data->rx_state, lsq_data->rx_state);

  /* Look'''), ('''  if (vector_norm(3, correction) > PVT_CONVERGENCE_THRESHOLD) {
    /* The solution has not converged, return 0 to
     * indicate that we should continue iterating.
     */
    return 0;
  }
''', '''  const bool converged =
      !(vector_norm(3, correction) > PVT_CONVERGENCE_THRESHOLD);
  if (!converged) {
    return 0;
  }
''')], 'pvt_solve')
R('pvt_noise', S, [('''  double pseudorange_var = 0.0;

  switch ((s8)nav_meas->sid.code) {
    case CODE_GPS_L1CA:
    case CODE_GPS_L1P:
      pseudorange_var = GPS_L1CA_PSEUDORANGE_VARIANCE +
                        PSEUDORANGE_CN0_COEFFICIENT * cn0_term +
                        PSEUDORANGE_ELE_COEFFICIENT * el_term * el_term;
      break;
''', '''  double pseudorange_var = 0.0;
  const double common = PSEUDORANGE_ELE_COEFFICIENT * (el_term * el_term) +
                        PSEUDORANGE_CN0_COEFFICIENT * cn0_term;

  switch ((s8)nav_meas->sid.code) {
    case CODE_GPS_L1CA:
    case CODE_GPS_L1P:
      pseudorange_var = GPS_L1CA_PSEUDORANGE_VARIANCE + common;
      break;
'''), ('''  /* Lower code/doppler accuracy if phase not locked */
  if (0 == (nav_meas->flags & NAV_MEAS_FLAG_PHASE_VALID)) {
    pseudorange_var *= NO_PLL_MULTIPLIER;
    doppler_var *= NO_PLL_MULTIPLIER;
  }
''', '''  double factor = (nav_meas->flags & NAV_MEAS_FLAG_PHASE_VALID) != 0
                      ? 1.0
                      : NO_PLL_MULTIPLIER;
'''), ('''    pseudorange_var *= coef;
    doppler_var *= coef;
  }

  /* Assign''', '''    factor *= coef;
  }
  doppler_var *= factor;
  pseudorange_var *= factor;

  /* Assign''')], 'calc_measurement_noises')
R('pvt_vel', S, [('''    pdot_pred =
        compute_predicted_doppler(n_states, lsq_data->rx_state, nav_meas[j]);

    double doppler_var = 0.0;
    calc_measurement_noises(nav_meas[j], NULL, &doppler_var);

    double wavelength = sid_to_lambda(nav_meas[j]->sid);

    /* convert Doppler variance (Hz^2) into (m/s)^2 */
    doppler_var *= wavelength * wavelength;

    /* weighting is the inverse of variance, if defined */
    if (doppler_var > 0) {
      w[j] = 1.0 / doppler_var;
    } else {
      w[j] = 1.0;
    }

    /* Store the observed minus predicted residual */
    lsq_data->omp_doppler[j] =
        -nav_meas_cor_sat_clk_on_measured_doppler(nav_meas[j]) * wavelength -
        pdot_pred;
''', '''    const double wavelength = sid_to_lambda(nav_meas[j]->sid);
    double doppler_var = 0.0;
    calc_measurement_noises(nav_meas[j], NULL, &doppler_var);
    const double range_rate_var = wavelength * doppler_var * wavelength;
    w[j] = range_rate_var > 0 ? 1.0 / range_rate_var : 1.0;

    pdot_pred =
        compute_predicted_doppler(n_states, lsq_data->rx_state, nav_meas[j]);
    const double range_rate =
        wavelength * nav_meas_cor_sat_clk_on_measured_doppler(nav_meas[j]);
    lsq_data->omp_doppler[j] = -(range_rate + pdot_pred);
'''), ('''  if (0 == res) {
    /* Solve the velocity update and its covariance matrix */''', '''  if (!res) {
    /* Solve the velocity update and its covariance matrix */''')], 'vel_solve')
R('pvt_dops', S, [('''  dops->pdop = sqrt(pdop_sq);

  /* TDOP is like PDOP but for the time state. */
  dops->tdop = sqrt(H[3 * n_states + 3]);

  /* Calculate the GDOP -- ||tr(H)|| = sqrt(PDOP^2 + TDOP^2) */
  dops->gdop = sqrt(pdop_sq + H[3 * n_states + 3]);
''', '''  const double tdop_sq = H[3 * (n_states + 1)];
  dops->gdop = sqrt(tdop_sq + pdop_sq);
  dops->tdop = sqrt(tdop_sq);
  dops->pdop = sqrt(pdop_sq);
'''), ('''  double down_ecef[N_STATE] = {M[2][0], M[2][1], M[2][2], 0, 0, 0, 0, 0, 0};
  double tmp[3];
  matrix_multiply(3, n_states, 1, (const double *)H, down_ecef, tmp);
  double vdop_sq = vector_dot(3, down_ecef, tmp);
''', '''  double vdop_sq = 0;
  for (int i = 0; i < 3; i++) {
    double sum = 0;
    for (int j = 0; j < 3; j++) {
      sum += H[i * n_states + j] * M[2][j];
    }
    vdop_sq += M[2][i] * sum;
  }
''')], 'compute_dops')
R('pvt_residual', S, [('''  u8 n_meas;
  u8 raim_n_state;

  if (disable_velocity) {
    /* One measurement per signal */
    n_meas = n_used;
    raim_n_state = n_states;
  } else {
    /* Compute residual from both pseudoranges and Dopplers */
    n_meas = 2 * n_used;
    raim_n_state = 2 * n_states;
  }
''', '''  const u8 per_signal = disable_velocity ? 1 : 2;
  const u8 n_meas = per_signal * n_used;
  const u8 raim_n_state = per_signal * n_states;
'''), ('''  double scaled_threshold =
      RAIM_METRIC_THRESHOLD * sqrt((double)n_meas / (n_meas - raim_n_state));
''', '''  const int dof = n_meas - raim_n_state;
  double scaled_threshold = RAIM_METRIC_THRESHOLD * sqrt((double)n_meas / dof);
'''), ('''  if (double_equal(lsq_data->rx_state[0], 0.0) &&
      double_equal(lsq_data->rx_state[1], 0.0) &&
      double_equal(lsq_data->rx_state[2], 0.0)) {
    /* State un-initialized */
    return false;
  }

  if (n_used == 0) {
    return false;
  }
''', '''  bool moved = false;
  for (u8 i = 0; i < 3; i++) {
    moved |= !double_equal(lsq_data->rx_state[i], 0.0);
  }
  if (!moved || n_used == 0) {
    return false;
  }
''')], 'residual_test')
R('pvt_filter', S, [('''  if (dops->gdop > 20.0) {
    /* GDOP is too high to yield a good solution. */
    return PVT_PDOP_TOO_HIGH;
  }

  if (soln->pos_llh[2] < -1e3 || soln->pos_llh[2] > 1e6) {
    /* Altitude is unreasonable. */
    return PVT_BAD_ALTITUDE;
  }
''', '''  s8 ret = 0;
  const double height = soln->pos_llh[2];
  if (dops->gdop > 20.0) {
    ret = PVT_PDOP_TOO_HIGH;
  } else if (height < -1e3) {
    ret = PVT_BAD_ALTITUDE;
  } else if (height > 1e6) {
    ret = PVT_BAD_ALTITUDE;
  }
  if (ret != 0) {
    return ret;
  }
''')], 'filter_solution')
R('pvt_iter_loop', S, [('''  u8 iters;
  s8 ret;
  /* Newton-Raphson iteration. */
  for (iters = 0; iters < PVT_MAX_ITERATIONS; iters++) {
    ret = pvt_solve(n_used,
                    n_states,
                    clock_map,
                    disable_velocity,
                    nav_meas,
                    lsq_data,
                    G,
                    w);
    /* break loop if solution converged or failed */
    if (ret != 0) {
      break;
    }
  }

  LSN_FREE_ARRAY(G);
  LSN_FREE_ARRAY(w);
  if (iters >= PVT_MAX_ITERATIONS || ret < 0) {
    return -1;
  }

  return 0;''', '''  s8 ret = 0;
  u8 left = PVT_MAX_ITERATIONS;
  while (ret == 0 && left-- > 0) {
    ret = pvt_solve(n_used,
                    n_states,
                    clock_map,
                    disable_velocity,
                    nav_meas,
                    lsq_data,
                    G,
                    w);
  }

  LSN_FREE_ARRAY(G);
  LSN_FREE_ARRAY(w);
  return ret > 0 ? 0 : -1;''')], 'pvt_iter')
R('pvt_masked', S, [('''  /* check that there are still enough satellites RAIM */
  if (sid_set_get_sat_count(&used_sids) < n_states) {
    log_info("RAIM failed, not enough satellites remaining");
    res = -1;
  }

  if ((0 == res) && (0 != pvt_iter(n_used,
                                   n_states,
                                   clock_map,
                                   disable_velocity,
                                   nav_meas_subset,
                                   lsq_data))) {
    /* solution failed */
    res = -1;
  }

  if ((0 == res) && !residual_test(n_used,
                                   n_states,
                                   disable_velocity,
                                   lsq_data,
                                   nav_meas_subset,
                                   metric)) {
    /* residuals too large */
    res = -1;
  }
''', '''  /* check that there are still enough satellites RAIM */
  if (sid_set_get_sat_count(&used_sids) < n_states) {
    log_info("RAIM failed, not enough satellites remaining");
    res = -1;
  } else {
    const s8 iter = pvt_iter(n_used,
                             n_states,
                             clock_map,
                             disable_velocity,
                             nav_meas_subset,
                             lsq_data);
    const bool good = iter == 0 && residual_test(n_used,
                                                 n_states,
                                                 disable_velocity,
                                                 lsq_data,
                                                 nav_meas_subset,
                                                 metric);
    res = good ? 0 : -1;
  }
''')], 'pvt_iter_masked')
