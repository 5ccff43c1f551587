"""Property table: which harnesses and structural rules decide which property."""

PROPS = {}


def P(pid, how, hs=(), **kw):
    PROPS[pid] = dict(how=how, hs=[h if len(h) == 3 else (h[0], h[1], {}) for h in hs], **kw)


def harnesses(pid, tier):
    p = PROPS[pid]
    r = list(p['hs'])
    if tier == 'thorough':
        r += [h if len(h) == 3 else (h[0], h[1], {}) for h in p.get('thorough', ())]
    return r


def H(f, names, cfg=None):
    return [(f, 'h_' + n, cfg or {}) for n in names.split()]


NF = 'equality, for all inputs at once, of the normal form of every observed output with that of '

P('N01', NF + 'the IS-GPS-200 subframe 1-3 layout', H('gps_lnav.c', 'gps_lnav'))
P('N02', NF + 'the BDS-SIS-ICD D1 subframe 1-3 layout', H('bds_d1.c', 'bds_d1 bds_iono'))
P('N03', NF + 'the Galileo OS-SIS-ICD I/NAV word 1-5 layout', H('gal_inav.c', 'gal_inav'))
P('N04', NF + 'the GLONASS ICD string layout, and of the Hamming verdict with the ICD parity equations',
  H('glo_str.c', 'ham extract str1 str2 str3 str4 str5'))

P('D01', NF + 'the bit-serial CRC-24Q definition', H('edc.c', 'crc crc_long crcbits crcbits_frames', dict(cut_at=3)))
P('D02', NF + 'a per-bit definition of the operation', H('bits.c', 'parity interleave count get getl set setl shl copy endian'))
P('D03', NF + 'big-endian field extraction; every buffer access must be inside the declared length',
  H('stream.c', 'in_u in_s in_ul in_sl out_u out_s out_ul out_sl wide cursor dec_u8 dec_s8 dec_u16 dec_s16 dec_u32 dec_s32 dec_u64 dec_s64 bytes'))
P('D04', NF + 'an abstract bounded queue; ownership and ordering of the two sides shared state is checked per access',
  H('fifo.c', ' '.join('%s_%d' % (o, n) for o in ('write', 'read', 'peek', 'remove', 'query') for n in (2, 4, 8)) +
    ' init big write_conc read_conc'))
P('D05', NF + 'the documented outcome table', H('sets.c', 'memcpy_s memcpy_big'))
P('D06', NF + 'the mathematical set operation',
  H('sets.c', 'intersection map insert remove is_set is_sid_set cmp') + [('sets.c', 'h_intersection5', dict(loop_budget=10**7))])

P('S01', NF + 'a reference table of signals', H('signal.c', 'table codes freq index index_back satcount') + H('glo_map.c', 'freq', dict(word_major=1)))
P('S02', NF + 'lexicographic (constellation, code, satellite) order', H('signal.c', 'order unknown') + H('sets.c', 'is_sid_set'))
P('S03', NF + 'the reference names and decimal rendering; every store must stay inside the caller buffer',
  H('signal.c', 'names names_total unknown_names unknown_code_name text text_any cons', dict(real_strings=1)))
P('S04', NF + 'a mathematical set of signals', H('signal.c', 'set_ops set_init set_count'))
P('S05', NF + 'a slot-to-frequency map, observed from inside the lock callbacks too',
  H('glo_map.c', 'set lock clear_all slots slots_none no_lock', dict(word_major=1)))
P('S06', NF + 'the provider lists', H('signal.c', 'sbas'))

RT = dict(rip=1000000)
P('T01', NF + 'week/second arithmetic', H('gpstime.c', 'valid norm add duration unix', RT))
P('T02', NF + 'the difference of the two instants', H('gpstime.c', 'diff diff_unknown week_second range', RT))
P('T03', NF + 'the closest instant, week or epoch', H('gpstime.c', 'match cycle epoch1 epoch2 epoch5 epoch10 epoch20 epoch50 epoch100', RT))
P('T04', NF + 'a leap second table built from IERS dates, and of every conversion with calendar arithmetic',
  H('utc.c', 'ends0 ends1 ends2 ends3 table params no_params event days0 days1 days2', RT) + H('utc.c', 'unix_out unix_in'),
  thorough=H('utc.c', ' '.join('all%d' % i for i in range(60)), RT))
P('T05', NF + 'GLONASS calendar arithmetic', H('glotime.c', 'leaps leap_second params_mid params_week params_none bad glo8_0 gps8_0 gps8_1 gps8_2 gps8_3 gps5_3 ' + ' '.join('ends%d' % i for i in range(8)), RT),
  thorough=H('glotime.c', ' '.join('gps%d_%d glo%d_%d' % (i, k, i, k) for i in range(1, 32) for k in range(4)), RT))
_Q = (0, 1, 2, 3, 4, 7, 8, 13, 26, 39)
P('T06', NF + 'Gregorian calendar arithmetic', H('caldate.c', ' '.join('make%d' % i for i in range(20)) + ' days ' +
  'date0 date1 date2 date3 ' + ' '.join('mjd%d utc%d utc%d' % (i, 2 * i, 2 * i + 1 if i < 39 else 0) for i in _Q), RT),
  thorough=H('caldate.c', ' '.join('mjd%d utc%d utc%d' % (i, 2 * i, 2 * i + 1) for i in range(39) if i not in _Q), RT))

P('N07', NF + 'the accuracy, fit interval and checksum definitions of the ICDs',
  H('eph.c', 'ura_index encode_ura fit') + H('eph.c', 'bds_crc', dict(cut_at=3)) + H('gal_inav.c', 'sisa gal_ura'))
_WN = ' '.join('window_' + x for x in 'gps gps_toc gps_t gps_toe gal gal_toc gal_t gal_toe glo glo_t glo_toe weeks sbas status'.split())
P('E01', NF + 'a window test on exact instants', H('eph.c', _WN + ' params', RT))
P('E02', NF + 'the ordered list of reasons', H('eph.c', 'status window_status', RT))
P('E03', NF + 'the health tables of the ICDs', H('eph.c', 'healthy health_words', RT))
P('E04', NF + 'field by field comparison', H('eph.c', 'equal', RT))
P('E05', NF + 'the group delay formulas of the ICDs', H('eph.c', 'tgd'))

P('N05', NF + 'the GLONASS ICD assembly of strings 1-5', H('glo_str.c', 'assemble1 assemble2 assemble3 assemble4 assemble5',
                                                          dict(stubs={'glo2gps': 'stub_glo2gps'})))
P('N06', NF + 'the IS-GPS-200 layout of the subframe 4 and 5 pages',
  H('almanac.c', 'almanac week health iono utc_no utc_days utc_7 utc_default', RT))
P('E06', NF + 'the ICD orbit equations and their exact time derivatives', H('orbit.c', 'kepler_gps kepler_qzs kepler_bds kepler_gal kepler_geo sbas', RT))
P('E07', NF + 'fourth order Runge-Kutta integration of the GLONASS ICD equations of motion', H('orbit.c', 'glo_0 glo_9 glo_16 glo_21 glo_26', RT))
P('E08', NF + 'the guarded composition of validity, state and geometry',
  H('orbit.c', 'gate_gps gate_sbas gate_bds gate_gal gate_qzs gate_glo unchecked', RT))
P('E09', NF + 'the almanac orbit, validity and comparison rules', H('almanac.c', 'usable equal state_gps state_sbas state_no_week look', RT))
P('M01', NF + 'the broadcast ionosphere model of IS-GPS-200', H('atmos.c', 'klobuchar'))
P('M02', NF + 'the UNB3m model', H('atmos.c', 'tropo_0 tropo_1 tropo_2 tropo_3 tropo_4 tropo_5 tropo_ends tropo_nan'))
P('G01', NF + 'the closed forms of the WGS84 conversions and of the local frame', H('coord.c', 'degrees ecef') +
  H('coord.c', 'ned azel', dict(stubs={'wgsecef2llh': 'stub_ecef2llh'})))
P('G02', NF + 'Fukushima\'s iteration and closing formulas, loops compared as fixed points of equal steps', H('coord.c', 'llh', dict(loop_cut=1, loop_budget=10**7)))
P('M03', NF + 'bicubic and bilinear interpolation over the table, taken as an uninterpreted function of row and column',
  H('geoid.c', 'geoid geoid_outside geoid_nan', dict(narrow=1, noround=1, rip=1000000)))
P('O01', NF + 'field-wise comparison, the clock corrections and the RTCM tables',
  H('meas.c', 'equal std_equal order clock lock_encode lock_decode bias', RT))

P('L01', NF + 'the definitions of the matrix and vector operations', H('linalg.c', 'mul mul_int shape vec solve'))
P('L02', NF + 'cofactor inverses, triangular factorisations with every pivot order shown, and the normal equations',
  H('linalg.c', 'inv2 inv3 inv4 lu1 lu5 lu5_perm lu5_cycle lu5_sing monomial wlsq1 wlsq2 wlsq3 wlsq4 wlsq_under pinv_tall pinv_wide pinv_square'),
  thorough=H('linalg.c', 'lu6'))
P('L03', NF + 'the factor matrices a symmetric matrix was built from, and orthogonality and product of the factors',
  H('linalg.c', 'udu udu_negative') + H('linalg.c', 'qr2', dict(signs=1)))
PVT = dict(stubs={'matrix_wlsq_solve': 'stub_wlsq', 'wgsecef2llh': 'stub_llh'}, rip=1000000)
P('P01', NF + 'the linearised measurement model given to the solver and the outputs as functions of whatever the solver answers',
  H('pvt.c', 'plain position_only mixed unsolved divergent no_rate', PVT))
P('P02', NF + 'the reference choice of measurements', H('pvt.c', 'mask strategy l1ca_enough too_few', PVT))
P('P03', NF + 'the residual test and the search for the bad measurement', H('pvt.c', 'raim4 raim5 exclude choose twice hopeless no_rate5', PVT))
P('P04', NF + 'the noise model of every signal', H('pvt.c', 'noise_a noise_b noise_c', PVT))
P('T08', NF + 'the difference of the two instants', H('cxx.cpp', 'time_order time_order_unknown time_shift time_difference'))
P('S07', NF + 'one order of signals and field by field equality', H('cxx.cpp', 'sid_order iono_equal'))
P('T07', NF + 'the IAU 1982 expression of sidereal time', H('gmst.c', 'given day late early eighties', RT))
P('R01', NF + 'an ordered list of receivers, one inductive step from every list', H('status.c', 'one two three step steps'))
P('R02', NF + 'the base name of a path and the hooks that were set', H('logging.c', 'hooks path'))


def _structural(name):
    def f():
        import structural
        return getattr(structural, name)()
    return f


P('I01', 'interprocedural mod-ref analysis: static storage a public function may write, keep the address of, or hand out', structural=[_structural('no_hidden_state')])
P('I02', 'interprocedural mod-ref analysis: parameters a public function may write through, against the const of the public declaration',
  structural=[_structural('const_inputs')])
P('I03', 'the external functions reachable in the call graph', structural=[_structural('bounded')])
P('I04', 'flow analysis of the locals of every function', structural=[_structural('assigned_first')])
