RF = []
def R(*a): RF.append(a)
L = 'src/linear_algebra.c'
R('qr_max_if', L, [('''      scale = fmax(scale, fabs(r[i * rows + k]));
''', '''      const double mag = fabs(r[i * rows + k]);
      if (mag > scale) {
        scale = mag;
      }
''')], 'qrsolve qrdecomp_square')
R('qr_identity', L, [('''      qt[i * rows + j] = 0.0;
    }
    qt[i * rows + i] = 1.0;
''', '''      qt[i * rows + j] = (i == j) ? 1.0 : 0.0;
    }
''')], 'qrsolve qrdecomp_square')
R('qr_reflect_helper', L, [('''s32 qrdecomp_square(const''', '''static void reflect(double *m, u32 rows, u32 k, u32 j, const double *v, double beta) {
  double dot = 0.0;
  for (u32 i = k; i < rows; i++) {
    dot += v[i * rows + k] * m[i * rows + j];
  }
  const double t = dot / beta;
  for (u32 i = k; i < rows; i++) {
    m[i * rows + j] -= t * v[i * rows + k];
  }
}

s32 qrdecomp_square(const'''), ('''        for (sum = 0.0, i = k; i < rows; i++) {
          sum += r[i * rows + k] * r[i * rows + j];
        }
        tau = sum / c[k];
        for (i = k; i < rows; i++) {
          r[i * rows + j] -= tau * r[i * rows + k];
        }
''', '''        reflect(r, rows, k, j, r, c[k]);
'''), (''', tau;
  memcpy''', ''';
  memcpy'''), ('''        sum = 0.0;
        for (i = k; i < rows; i++) {
          sum += r[i * rows + k] * qt[i * rows + j];
        }
        sum /= c[k];
        for (i = k; i < rows; i++) {
          qt[i * rows + j] -= sum * r[i * rows + k];
        }
''', '''        reflect(qt, rows, k, j, r, c[k]);
''')], 'qrsolve qrdecomp_square')
R('rsolve_up', L, [('''  s32 i, j;
  double sum;
  for (i = rows - 1; i >= 0; i--) {
    sum = b[i];
    for (j = i + 1; j < (int)rows; j++) {
      sum -= r[i * cols + j] * x[j];
    }
    x[i] = sum / r[i * cols + i];
  }
''', '''  for (u32 left = rows; left > 0; left--) {
    const u32 i = left - 1;
    const double *row = &r[i * cols];
    double sum = b[i];
    for (u32 j = rows - 1; j > i; j--) {
      sum -= row[j] * x[j];
    }
    x[i] = sum / row[i];
  }
''')], 'rsolve qrsolve')
R('qtmult_acc', L, [('''    sum = 0.0;
    for (j = 0; j < n; j++) {
      sum += qt[i * n + j] * b[j];
    }
    x[i] = sum;
''', '''    sum = qt[i * n] * b[0];
    for (j = 1; j < n; j++) {
      sum += b[j] * qt[i * n + j];
    }
    x[i] = sum;
''')], 'qtmult qrsolve')
R('inverse_aug', L, [('''        for (j = 0; j < cols; j++) {
          if (j >= n) {
            if (j - n == i) {
              m[i * cols + j] = 1.0;
            } else {
              m[i * cols + j] = 0;
            }
          } else {
            m[i * cols + j] = a[i * n + j];
          }
        }
''', '''        double *left = &m[i * cols];
        double *right = left + n;
        memcpy(left, &a[i * n], n * sizeof(double));
        memset(right, 0, n * sizeof(double));
        right[i] = 1.0;
'''), ('''        for (j = n, k = 0; j < cols; j++, k++) {
          b[i * n + k] = m[i * cols + j];
        }
''', '''        memcpy(&b[i * n], &m[i * cols + n], n * sizeof(double));
'''), ('''  u32 i = 0, j = 0, k = 0, cols = n * 2;
  LSN_NEW_ARRAY(m, n * cols, double);''', '''  u32 i = 0, cols = n * 2;
  LSN_NEW_ARRAY(m, n * cols, double);''')], 'matrix_inverse')
R('inv2_scaled', L, [('''  b[0] = a[3] / det;
  b[1] = -a[1] / det;
  b[2] = -a[2] / det;
  b[3] = a[0] / det;
  return 0;''', '''  const double scale = 1.0 / det;
  b[0] = scale * a[3];
  b[1] = -(scale * a[1]);
  b[2] = -(scale * a[2]);
  b[3] = scale * a[0];
  return 0;''')], 'matrix_inverse')
R('inv3_det', L, [('''      ((a[3 * 1 + 0] *
            -(a[3 * 0 + 1] * a[3 * 2 + 2] - a[3 * 0 + 2] * a[3 * 2 + 1]) +
        a[3 * 1 + 1] *
            (a[3 * 0 + 0] * a[3 * 2 + 2] - a[3 * 0 + 2] * a[3 * 2 + 0])) +
       a[3 * 1 + 2] *
           -(a[3 * 0 + 0] * a[3 * 2 + 1] - a[3 * 0 + 1] * a[3 * 2 + 0]));
''', '''      a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) +
      a[2] * (a[3] * a[7] - a[4] * a[6]);
''')], 'matrix_inverse')
R('atwaiat_plain', L, [('''      c[m * i + j] = 0;
      if (i == j) {
        /* If this is a diagonal element, just sum the squares of the
         * column of A weighted by the weighting vector. */
        for (k = 0; k < n; k++) {
          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + j];
        }
      } else {
        /* Otherwise, assign both off-diagonal elements at once. */
        for (k = 0; k < n; k++) {
          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + i];
        }
        c[m * j + i] = c[m * i + j];
      }
''', '''      double acc = 0;
      for (k = 0; k < n; k++) {
        acc += w[k] * a[m * k + i] * a[m * k + j];
      }
      c[m * i + j] = acc;
      c[m * j + i] = acc;
'''), ('''  if (0 == res) {
    for (i = 0; i < m; i++) {
      for (j = 0; j < n; j++) {
        b[n * i + j] = 0;
        for (k = 0; k < m; k++) {
          b[n * i + j] += inv[m * i + k] * a[m * j + k];
        }
      }
    }
  }
''', '''  for (j = 0; res == 0 && j < n; j++) {
    for (i = 0; i < m; i++) {
      double acc = 0;
      for (k = 0; k < m; k++) {
        acc += inv[m * i + k] * a[m * j + k];
      }
      b[n * i + j] = acc;
    }
  }
''')], 'matrix_atwaiat matrix_ataiat matrix_pseudoinverse matrix_wlsq_solve')
R('pinv_switch', L, [('''  if (n == m) {
    return matrix_inverse(n, a, b);
  }
  if (n > m) {
    return matrix_ataiat(n, m, a, b);
  }
  if (n < m) { /* n < m */
    return matrix_ataati(n, m, a, b);
  }
  return -1;
''', '''  return n == m  ? matrix_inverse(n, a, b)
         : n > m ? matrix_ataiat(n, m, a, b)
                 : matrix_ataati(n, m, a, b);
''')], 'matrix_pseudoinverse')
R('mult_acc', L, [('''  memset(c, 0, sizeof(double) * n * p);
  for (i = 0; i < n; i++) {
    for (j = 0; j < p; j++) {
      for (k = 0; k < m; k++) {
        c[p * i + j] += a[m * i + k] * b[p * k + j];
      }
    }
  }
''', '''  for (i = 0; i < n; i++) {
    for (j = 0; j < p; j++) {
      double acc = 0;
      for (k = 0; k < m; k++) {
        acc += a[m * i + k] * b[p * k + j];
      }
      *c++ = acc;
    }
  }
''')], 'matrix_multiply')
S = 'src/sid_set.c'
R('sidset_helper', S, [('''/** Add new element to the set
''', '''static u64 bit_of(gnss_signal_t sid) {
  u16 s = sid_to_code_index(sid);
  assert(s < 64);
  return 1ull << s;
}

/** Add new element to the set
'''), ('''  u16 s = sid_to_code_index(sid);
  assert(s < 64);
  sid_set->sats[sid.code] |= ((u64)0x01 << s);
''', '''  sid_set->sats[sid.code] |= bit_of(sid);
'''), ('''  u16 s = sid_to_code_index(sid);
  assert(s < 64);
  sid_set->sats[sid.code] &= ~((u64)0x01 << s);
''', '''  sid_set->sats[sid.code] &= ~bit_of(sid);
'''), ('''  u16 s = sid_to_code_index(sid);
  assert(s < 64);
  return sid_set->sats[sid.code] & ((u64)0x01 << s);
''', '''  return (sid_set->sats[sid.code] & bit_of(sid)) != 0;
''')], 'sid_set_add sid_set_remove sid_set_contains')
R('sidset_shift', S, [('''  return sid_set->sats[sid.code] & ((u64)0x01 << s);
''', '''  return (bool)((sid_set->sats[sid.code] >> s) & 1);
'''), ('''  sid_set->sats[sid.code] &= ~((u64)0x01 << s);
''', '''  const u64 mask = (u64)1 << s;
  if (sid_set->sats[sid.code] & mask) {
    sid_set->sats[sid.code] ^= mask;
  }
''')], 'sid_set_remove sid_set_contains')
R('sidset_count', S, [('''  u32 cnt = 0;
  for (code_t code = 0; code < CODE_COUNT; code++) {
    cnt += count_bits_u64(sid_set->sats[code], 1);
  }

  return cnt;''', '''  u32 total = 0;
  const u64 *word = sid_set->sats;
  for (int left = CODE_COUNT; left > 0; left--, word++) {
    if (*word != 0) {
      total += count_bits_u64(*word, 1);
    }
  }
  return total;''')], 'sid_set_get_sig_count')
R('sidset_satcount', S, [('''  u64 sats[CONSTELLATION_COUNT];
  memset(sats, 0, sizeof(sats));
''', '''  u64 sats[CONSTELLATION_COUNT] = {0};
'''), ('''    sats[code_to_constellation(code)] |= sid_set->sats[code];
''', '''    if (sid_set->sats[code] == 0) {
      continue;
    }
    u64 *mine = &sats[code_to_constellation(code)];
    *mine = *mine | sid_set->sats[code];
''')], 'sid_set_get_sat_count')
G = 'src/glo_map.c'
R('glomap_slots', G, [('''      si_num++;
      if (si_num == 1) {
        /* 1st slot found */
        *slot_id1 = i;
      }
      if (si_num == 2) {
        /* 2 slots id found no need to continue */
        *slot_id2 = i;
        break;
      }
    }
  }
  return si_num;''', '''      if (si_num++ > 0) {
        *slot_id2 = i;
        return si_num;
      }
      *slot_id1 = i;
    }
  }
  return si_num;''')], 'glo_map_get_slot_id')
R('glomap_write', G, [('''  glo_map_lock();
  glo_sv_id_fcn_map[glo_slot_id] = fcn;
  glo_map_unlock();
''', '''  store_fcn(glo_slot_id, (u8)fcn);
'''), ('''  glo_map_lock();
  glo_sv_id_fcn_map[glo_slot_id] = GLO_FCN_UNKNOWN;
  glo_map_unlock();
''', '''  store_fcn(glo_slot_id, GLO_FCN_UNKNOWN);
'''), ('''/** Init GLO map
''', '''static void store_fcn(u16 slot, u8 value) {
  glo_map_lock();
  glo_sv_id_fcn_map[slot] = value;
  glo_map_unlock();
}

/** Init GLO map
'''), ('''  u16 fcn = (u16)glo_sv_id_fcn_map[sid.sat];
  bool valid = (fcn != GLO_FCN_UNKNOWN);

  return valid;
''', '''  return glo_sv_id_fcn_map[sid.sat] != GLO_FCN_UNKNOWN;
''')], 'glo_map_set_slot_id glo_map_clear_slot_id glo_map_valid')
R('glomap_clear', G, [('''  for (u16 i = 1; i < NUM_GLO_MAP_INDICES; ++i) {
    glo_map_clear_slot_id(i);
  }''', '''  u16 slot = NUM_GLO_MAP_INDICES;
  while (--slot > 0) {
    glo_map_clear_slot_id(slot);
  }''')], 'glo_map_clear_all')
U = 'src/subsystem_status_report.c'
R('ssr_pp', U, [('''  swiftnav_subsystem_status_report_callback_node_t* previous = NULL;
  swiftnav_subsystem_status_report_callback_node_t* current =
      root_callback_node;

  for (; current != NULL; previous = current, current = current->next) {
  }

  if (previous != NULL) {
    previous->next = callback_node;
  } else {
    root_callback_node = callback_node;
  }
''', '''  swiftnav_subsystem_status_report_callback_node_t** tail = &root_callback_node;
  while (*tail != NULL) {
    tail = &(*tail)->next;
  }
  *tail = callback_node;
'''), ('''  swiftnav_subsystem_status_report_callback_node_t* previous = NULL;
  swiftnav_subsystem_status_report_callback_node_t* current =
      root_callback_node;

  for (; current != NULL; previous = current, current = current->next) {
    if (current != callback_node) {
      continue;
    }

    if (previous != NULL) {
      previous->next = current->next;
    } else {
      root_callback_node = current->next;
    }
  }
''', '''  swiftnav_subsystem_status_report_callback_node_t** link = &root_callback_node;
  while (*link != NULL && *link != callback_node) {
    link = &(*link)->next;
  }
  if (*link != NULL) {
    *link = callback_node->next;
  }
''')], 'swiftnav_subsystem_status_report_callback_register')
R('ssr_send', U, [('''  for (; node != NULL; node = node->next) {
    node->callback(component, generic, specific, node->context);
  }
''', '''  while (node) {
    pfn_subsystem_status_report call = node->callback;
    call(component, generic, specific, node->context);
    node = node->next;
  }
''')], 'swiftnav_send_subsystem_status_report')
H = 'src/shm.c'
R('shm_dhi', H, [('''  u8 nav_dhi = (health_8bits >> 5) & 0x7;

  /* All clear */
  if (NAV_DHI_OK == nav_dhi) {
    return true;
  }

  /* Error is masked */
  if (disabled_errors & (1 << nav_dhi)) {
    return true;
  }

  /* Error is indicated and not masked */
  return false;
''', '''  const unsigned which = health_8bits / 32u;
  return which == NAV_DHI_OK || ((disabled_errors >> which) & 1u) != 0;
''')], 'check_nav_dhi')
R('shm_summary', H, [('''  u8 summary = (health_bits >> 5) & 0x1;

  return (0 == summary);
''', '''  return !(health_bits & 0x20);
''')], 'check_6bit_health')
R('shm_general', H, [('''  if (b == ALL_SIGNALS_WEAK || b == ALL_SIGNALS_DEAD ||
      b == ALL_SIGNALS_NO_DATA || b == SV_TEMPORARILY_OUT ||
      b == SV_WILL_BE_TEMPORARILY_OUT || b == ONLY_URA_VALID ||
      b == MULTIPLE_PROBLEMS) {
    return SHM_STATE_UNHEALTHY;
  }
''', '''  if ((b >= ALL_SIGNALS_WEAK && b <= ALL_SIGNALS_NO_DATA) ||
      b >= SV_TEMPORARILY_OUT) {
    return SHM_STATE_UNHEALTHY;
  }
'''), ('''      if (b == L2_C_SIGNAL_WEAK || b == L2_C_SIGNAL_DEAD ||
          b == L2_C_SIGNAL_NO_DATA || b == L1_L2_C_SIGNAL_WEAK ||
          b == L1_L2_C_SIGNAL_DEAD || b == L1_L2_C_SIGNAL_NO_DATA ||
          b == L2_SIGNAL_WEAK || b == L2_SIGNAL_DEAD ||
          b == L2_SIGNAL_NO_DATA) {
        return SHM_STATE_UNHEALTHY;
      }
      return SHM_STATE_HEALTHY;
''', '''      switch (b) {
        case L2_C_SIGNAL_WEAK:
        case L2_C_SIGNAL_DEAD:
        case L2_C_SIGNAL_NO_DATA:
        case L1_L2_C_SIGNAL_WEAK:
        case L1_L2_C_SIGNAL_DEAD:
        case L1_L2_C_SIGNAL_NO_DATA:
        case L2_SIGNAL_WEAK:
        case L2_SIGNAL_DEAD:
        case L2_SIGNAL_NO_DATA:
          return SHM_STATE_UNHEALTHY;
        default:
          return SHM_STATE_HEALTHY;
      }
''')], 'check_6bit_health')
N = 'src/nav_meas.c'
R('lock_enc', N, [('''  u32 ms_lock_time;
  if (nm_lock_time * SECS_MS < UINT32_MAX) {
    ms_lock_time = (u32)(nm_lock_time * SECS_MS);
  } else {
    ms_lock_time = UINT32_MAX;
  }

  if (ms_lock_time < 32) {
    return 0;
  }
  for (u8 i = 0; i < 16; i++) {
    if (ms_lock_time >= (1u << (i + 5))) {
      continue;
    }
    return i;
  }
  return 15;
''', '''  const double ms = nm_lock_time * SECS_MS;
  u32 whole = ms < UINT32_MAX ? (u32)ms : UINT32_MAX;
  u8 steps = 0;
  whole >>= 5;
  while (whole != 0 && steps < 15) {
    whole >>= 1;
    steps++;
  }
  return steps;
''')], 'encode_lock_time')
R('lock_dec', N, [('''  u32 ms_lock_time;
  if (sbp_lock_time == 0) {
    ms_lock_time = 0;
  } else {
    ms_lock_time = 1u << (sbp_lock_time + 4);
  }

  /* Convert to seconds */
  return (double)ms_lock_time / SECS_MS;
''', '''  if (sbp_lock_time == 0) {
    return 0.0;
  }
  return (16u << sbp_lock_time) / (double)SECS_MS;
''')], 'decode_lock_time')
R('nm_equal_and', N, [('''  if (!is_float_eq(a->sat_pos[0], b->sat_pos[0]) ||
      !is_float_eq(a->sat_pos[1], b->sat_pos[1]) ||
      !is_float_eq(a->sat_pos[2], b->sat_pos[2])) {
    return false;
  }
''', '''  for (int i = 0; i < 3; i++) {
    if (!is_float_eq(a->sat_pos[i], b->sat_pos[i])) {
      return false;
    }
  }
'''), ('''  if (a->flags != b->flags) {
    return false;
  }

  return true;
}

/** Compare nav''', '''  return a->flags == b->flags;
}

/** Compare nav''')], 'nav_meas_equal')
R('nm_cor', N, [('''  double carrier_freq = sid_to_carr_freq(nav_meas->sid);
  return (nav_meas->raw_carrier_phase + nav_meas->sat_clock_err * carrier_freq);
''', '''  const double cycles = sid_to_carr_freq(nav_meas->sid) * nav_meas->sat_clock_err;
  return cycles + nav_meas->raw_carrier_phase;
'''), ('''  return (meas->flags & NAV_MEAS_FLAG_CODE_VALID) &&
         !(meas->flags & NAV_MEAS_FLAG_RAIM_EXCLUSION);
''', '''  const nav_meas_flags_t both =
      NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_RAIM_EXCLUSION;
  return (meas->flags & both) == NAV_MEAS_FLAG_CODE_VALID;
''')], 'nav_meas_cor_sat_clk_on_carrier_phase pseudorange_valid')
I = 'src/signal.c'
R('sig_lambda', I, [('''  if (CODE_GLO_L1OF == sid.code) {
    assert(glo_map_valid(sid));
    return GPS_C / (GLO_L1_HZ +
                    (glo_map_get_fcn(sid) - GLO_FCN_OFFSET) * GLO_L1_DELTA_HZ);
  }
  if (CODE_GLO_L2OF == sid.code) {
    assert(glo_map_valid(sid));
    return GPS_C / (GLO_L2_HZ +
                    (glo_map_get_fcn(sid) - GLO_FCN_OFFSET) * GLO_L2_DELTA_HZ);
  }
  /* for GPS just take from table */
  return GPS_C / code_table[sid.code].carr_freq;
''', '''  return GPS_C / sid_to_carr_freq(sid);
''')], 'sid_to_lambda')
R('sig_is', I, [('''  return code_valid(code) &&
         (CONSTELLATION_GPS == code_table[code].constellation);
''', '''  if (!code_valid(code)) {
    return false;
  }
  return code_to_constellation(code) == CONSTELLATION_GPS;
'''), ('''  for (sbas_system_t sbas_system = (sbas_system_t)0; sbas_system < SBAS_COUNT;
       sbas_system = sbas_system + 1) {
    if (is_value_in_array(sbas_prn_table[sbas_system].prn_list,
                          MAX_SBAS_SATS_PER_SYSTEM,
                          sid.sat)) {
      return sbas_system;
    }
  }
  return SBAS_NONE;
''', '''  for (int sys = 0; sys < SBAS_COUNT; sys++) {
    const u8 *list = sbas_prn_table[sys].prn_list;
    for (int k = 0; k < MAX_SBAS_SATS_PER_SYSTEM; k++) {
      if (list[k] == sid.sat) {
        return (sbas_system_t)sys;
      }
    }
  }
  return SBAS_NONE;
''')], 'is_gps get_sbas_system')
E = 'src/geoid_model.c'
R('geoid_wrap', E, [('''  if (x >= (MAX_LON - MIN_LON) / LON_GRID_SPACING_DEG) {
    x -= (int)((MAX_LON - MIN_LON) / LON_GRID_SPACING_DEG);
  } else if (x < 0) {
    x += (int)((MAX_LON - MIN_LON) / LON_GRID_SPACING_DEG);
  }

  return GEOID[x][y];''', '''  const int columns = (int)((MAX_LON - MIN_LON) / LON_GRID_SPACING_DEG);
  const int wrapped = (x + columns) % columns;
  return GEOID[wrapped][y];''')], 'get_geoid_offset')
R('geoid_cubic', E, [('''  return p[1] + 0.5 * x *
                    (p[2] - p[0] +
                     x * (2. * p[0] - 5. * p[1] + 4. * p[2] - p[3] +
                          x * (3. * (p[1] - p[2]) + p[3] - p[0])));
''', '''  const double c1 = 0.5 * (p[2] - p[0]);
  const double c2 = p[0] - 2.5 * p[1] + 2. * p[2] - 0.5 * p[3];
  const double c3 = 0.5 * (p[3] - p[0]) + 1.5 * (p[1] - p[2]);
  return ((c3 * x + c2) * x + c1) * x + p[1];
''')], 'get_geoid_offset')
R('geoid_bilinear', E, [('''  return (1 - fy) * ((1 - fx) * southwest + fx * southeast) +
         fy * ((1 - fx) * northwest + fx * northeast);
''', '''  const float south = southwest + fx * (southeast - southwest);
  const float north = northwest + fx * (northeast - northwest);
  return south + fy * (north - south);
''')], 'get_geoid_offset')
T = 'src/logging_common.c'
R('trunc_strrchr', T, [('''  int i;

  if (path[0] == '\\0') {
    return "";
  }
  for (i = strlen(path) - 1; i >= 0 && path[i] == '/'; i--) {
    ;
  }
  if (i == -1) {
    return "/";
  }
  /* set the trailing character to null in case it was '/' e.g. /dev/null/ */
  path[i + 1] = '\\0';
  /* Go backwards until the prior '/' */
  while (i >= 0 && path[i] != '/') {
    i--;
  }
  /* Return a pointer to the remainder */
  return &path[i + 1];
''', '''  size_t end = strlen(path);
  if (end == 0) {
    return "";
  }
  while (end > 0 && path[end - 1] == '/') {
    end--;
  }
  if (end == 0) {
    return "/";
  }
  path[end] = '\\0';
  char *base = path + end;
  while (base != path && base[-1] != '/') {
    base--;
  }
  return base;
''')], 'truncate_path_')
R('logset', 'src/logging.c', [('''  if (impl_log == NULL && impl_detailed_log == NULL) {
    log_ = DEFAULT_LOG;
    detailed_log_ = DEFAULT_DETAILED_LOG;
    return;
  }

  assert(impl_log != NULL);
  assert(impl_detailed_log != NULL);
  log_ = impl_log;
  detailed_log_ = impl_detailed_log;
''', '''  const bool defaults = !impl_log && !impl_detailed_log;
  assert(defaults || (impl_log && impl_detailed_log));
  log_ = defaults ? DEFAULT_LOG : impl_log;
  detailed_log_ = defaults ? DEFAULT_DETAILED_LOG : impl_detailed_log;
''')], 'logging_set_implementation')
M = 'src/memcpy_s.c'
R('memcpys', M, [('''  if (((src > dest) && (src < (void *)((u8 *)dest + destsize))) ||
      ((dest > src) && (dest < (const void *)((const u8 *)src + count)))) {
    log_error("memcpy_s error: overlap");
    return MEMCPY_S_OVERLAP;
  }
''', '''  const u8 *from = src;
  const u8 *to = dest;
  const bool from_inside = from > to && from < to + destsize;
  const bool to_inside = to > from && to < from + count;
  if (from_inside || to_inside) {
    log_error("memcpy_s error: overlap");
    return MEMCPY_S_OVERLAP;
  }
''')], 'memcpy_s')
P = 'src/glonass_phase_biases.c'
R('globias', P, [('''  if (fabs(biases1.l2p_bias_m - biases2.l2p_bias_m) > FLOAT_EQUALITY_EPS) {
    return false;
  }
  return true;''', '''  return !(fabs(biases2.l2p_bias_m - biases1.l2p_bias_m) > FLOAT_EQUALITY_EPS);'''),
  ('''  return (msg_flags & flag) == flag;''', '''  return (flag & ~msg_flags) == 0;''')], 'get_glonass_bias glonass_biases_are_equal')
