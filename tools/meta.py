AI = ('static analysis: abstract interpretation of the LLVM IR (gated value graph with decision-tree and polynomial normal forms), '
      'obligations discharged by normal-form equality; no execution, no path enumeration, no solver')
NOTE = ('Every obligation is decided on the IR clang generates from /repo at each run, for all inputs in the stated domain at once. '
        'Trusted: clang front end, the analyser in engine/, the reference written in spec/.')
REAL = 'Floating point is treated as exact real arithmetic on non-NaN values, so rounding is not judged.'
NOTES = 'One analyser (engine/), one reference specification per property (spec/), structural rules over the IR (engine/structural.py). See DESIGN.md.'
META = []


def M(id, title, statement, files, mech, quant, why, over=('inputs',), **kw):
    META.append(dict(id=id, title=title, statement=' '.join(statement.split()), files=files.split(), mech=mech,
                     quant=quant, why=why, over=list(over), **kw))


M('N01', 'GPS LNAV ephemeris decoding follows IS-GPS-200 for every subframe content',
  '''Decoding GPS LNAV subframes 1-3 yields, for every bit pattern, each ephemeris field equal to the IS-GPS-200 value (bit position,
  sign, scale factor, units), the week resolved against the reference week, the fit interval and accuracy derived from their indices,
  and a valid flag that is set exactly when the issue-of-data and reference-time fields are consistent. No field depends on parity or
  reserved bits, and nothing outside the given words is read.''',
  'src/ephemeris.c', [('decode_ephemeris_with_wn_ref', 'src/ephemeris.c')],
  'All 3x8 30-bit words, all reference weeks and times of transmission 0 <= tot < 604800 s; exact real arithmetic for scaling.',
  'Tests decode a few recorded subframes; a wrong sign bit, split field or scale for values absent from them goes unseen.', limits=REAL)
M('N02', 'BeiDou D1 ephemeris and ionosphere decoding follows the ICD for every content',
  '''Decoding BeiDou D1 subframes 1-3 yields, for every bit pattern, each ephemeris field, group delay and ionosphere coefficient equal to
  the value the BeiDou ICD defines (split fields joined, two's complement signs, scale factors, BDT to GPS week offset).''',
  'src/ephemeris.c src/ionosphere.c', [('decode_bds_d1_ephemeris', 'src/ephemeris.c'), ('decode_bds_d1_iono', 'src/ionosphere.c')],
  'All 3x10 words and all signal identifiers of the constellation; exact real arithmetic for scaling.',
  'One recorded ephemeris is tested; fields split over two words are exercised at one value only.', limits=REAL)
M('N03', 'Galileo I/NAV ephemeris decoding follows the ICD for every page content',
  '''Decoding Galileo I/NAV words 1-5 yields, for every bit pattern, each ephemeris field equal to the value the Galileo ICD defines
  (bit position, sign, scale, GST to GPS week offset, SISA, health and data validity), and reports failure exactly when a reference time
  lies outside the week.''',
  'src/ephemeris.c', [('decode_gal_ephemeris_safe', 'src/ephemeris.c')],
  'All contents of the five pages; exact real arithmetic for scaling.',
  'Tests decode a handful of recorded pages.', limits=REAL)
M('N04', 'GLONASS strings are error-checked and decoded as the ICD defines',
  '''For every content of a GLONASS navigation string, the error-detection verdict (no error, corrected bit position, uncorrectable) is
  the one the ICD parity equations give, extracted words equal the named bits, and each string decoder accepts a string exactly when it
  is error free, carries the right number and all fields are within ICD limits, then storing every field with the ICD position, sign and scale.''',
  'src/decode_glo.c', [('error_detection_glo', 'src/decode_glo.c'), ('decode_glo_string_1..5', 'src/decode_glo.c')],
  'All 85-bit strings (bits above 85 zero); all bit positions and widths for extraction; exact real arithmetic for scaling.',
  'Tests decode a few recorded strings with at most a few flipped bits.', limits=REAL)
M('D01', 'CRC-24Q equals the bitwise polynomial division',
  '''The byte-wise and the bit-wise CRC functions return, for every message, length and initial value, the remainder of the bitwise
  CRC-24Q division (with complementing of the message bits when requested), and read exactly the bytes that hold the message.''',
  'src/edc.c', [('crc24q', 'src/edc.c'), ('crc24q_bits', 'src/edc.c')],
  'All message contents and initial values; byte lengths 0..16 and 64, bit lengths 0..72 and the frame lengths in use.',
  'Tests use a few messages; table entries and trailing partial bytes are sampled.',
  limits='Message length is enumerated, contents are not.')
M('D02', 'Bit-field utilities read and write exactly the addressed bits',
  '''Reading, writing, copying, shifting and counting bits in a buffer affects and returns exactly the addressed bits, most significant
  bit first, with sign extension for signed fields and every other bit unchanged; parity, interleaving and byte-order conversion match
  their bitwise definitions. No byte outside the addressed range is touched.''',
  'src/bits.c include/swiftnav/bits.h', [('getbitu/getbits/setbitu/bitcopy/bitshl', 'src/bits.c')],
  'All buffer contents, all positions in the analysed windows, all widths 1..32 (1..64 for the long variants).',
  'Positions x widths x contents cannot be sampled densely; sign extension and byte-straddling cases are easy to miss.')
M('D03', 'Bit and byte streams never run past their length and decode big-endian fields',
  '''Reading from a bit or byte stream succeeds exactly when the requested bits are inside the stream, returns the big-endian
  (sign-extended where signed) value at the cursor, advances the cursor by the amount read only on success, and never touches a byte
  outside the stream, for every cursor, length and amount including ones near the 32-bit limit.''',
  'include/swiftnav/bitstream.h include/swiftnav/bytestream.h', [('swiftnav_in_bitstream_*', 'include/swiftnav/bitstream.h'), ('swiftnav_bytestream_*', 'include/swiftnav/bytestream.h')],
  'All contents, cursors, stream lengths and requested sizes (field width at most the width of the result type).',
  'Overflowing offsets and exact-boundary reads need specific cursor/length pairs.')
M('D04', 'The byte FIFO is a bounded queue that one writer and one reader share safely',
  '''For every reachable state, writing stores the first bytes that fit and reports how many, reading and peeking deliver the oldest bytes
  in order, removing drops them, and occupied plus free space equals the capacity, also across index wrap-around. The writer only
  changes the write index and free cells and publishes data before the index; the reader only changes the read index and never
  touches a cell after releasing it, so one writer and one reader interleaved in any way lose, duplicate or corrupt nothing.''',
  'src/fifo_byte.c', [('fifo_write/fifo_read/fifo_peek/fifo_remove', 'src/fifo_byte.c')],
  'Capacities 2, 4 and 8, all index values, contents and request lengths; every step of the other side before every load (program-order memory model).',
  'Wrap-around of the 32-bit indices and writer/reader interleavings are out of reach of tests.', over=('inputs', 'schedules', 'histories'))
M('D05', 'The checked memory copy reports every misuse and copies only when safe',
  '''The checked copy reports null pointers, zero sizes, oversize requests and overlapping ranges with their distinct codes in the
  documented precedence, leaves memory untouched in all those cases, and otherwise makes the destination prefix equal to the source and
  changes nothing else.''',
  'src/memcpy_s.c', [('memcpy_s', 'src/memcpy_s.c')],
  'All null/non-null combinations, sizes and relative positions of the two ranges in the analysed arena; arbitrary large sizes for rejection.',
  'Overlap patterns and precedence of simultaneous errors are sampled.')
M('D06', 'Ordered-array set operations compute the mathematical set operation',
  '''On sorted arrays without duplicates, intersection (also as callback traversal), insertion, removal and the is-a-set test give exactly the
  mathematical result with whole elements moved, correct counts and indices, and no access outside the arrays.''',
  'src/set.c include/swiftnav/set.h', [('intersection_map', 'src/set.c'), ('insert_set_element/remove_set_element', 'src/set.c')],
  'All element orderings and payloads for the analysed array sizes (up to 5 elements).',
  'Removing or inserting at the ends and disjoint or nested overlaps need specific relative orders.',
  limits='Array sizes are instantiated up to 5; the code is data independent in the element type.')
M('S01', 'Every code maps to its constellation, frequency, satellites and indices',
  '''For every code value and satellite number: validity, constellation predicates, primary and L5 codes, carrier frequency, wavelength, chip
  and period data, phase alignment and satellite counts are those of the signal definition, GLONASS FDMA carriers use the mapped
  channel number, and satellite index and signal identifier convert into each other without loss. Invalid codes are reported invalid
  and belong to no constellation.''',
  'src/signal.c include/swiftnav/signal.h', [('code_table', 'src/signal.c'), ('sid_valid', 'src/signal.c'), ('sid_to_carr_freq', 'src/signal.c')],
  'All 2^32 code values and 2^16 satellite numbers; all GLONASS slot mappings.',
  'Tests look at some codes; the table has 64 rows and 13 columns.')
M('S02', 'Signal identifiers are totally ordered, and equality, ordering and hash agree',
  '''Comparing two signal identifiers orders them by constellation, then code, then satellite; the comparison is zero exactly when code and
  satellite are equal, equality and hash agree with it, and the sorted-without-duplicates test accepts exactly the strictly increasing
  sequences. The unknown signal equals only itself.''',
  'include/swiftnav/signal.h src/set.c', [('sid_hash/sid_compare', 'include/swiftnav/signal.h'), ('is_sid_set', 'src/set.c')],
  'All pairs of signals with a valid code and any satellite number.',
  'Pairs of 64 x 65536 identifiers; codes of a constellation are not contiguous.')
M('S03', 'Signal, code and constellation names are unique, reversible and bounded',
  '''Every code, constellation, sub-constellation and constellation letter has its documented name, converting a name back gives the same
  value, unknown names give the invalid value and unknown values a placeholder. Rendering any signal writes "<code> <satellite>"
  in decimal, null terminated, inside the caller's 16-byte buffer and returns its length.''',
  'src/signal.c include/swiftnav/signal.h', [('sat_code_to_string', 'src/signal.c'), ('code_string_to_enum', 'src/signal.c')],
  'All 64 codes x satellites 0..255, all out-of-range codes, all strings of up to 5 characters for constellation names.',
  'Tests render a few signals.')
M('S04', 'Signal sets add, remove, query and count exactly',
  '''After adding (removing) a valid signal a set contains it (does not), every other membership is unchanged, a new set is empty, and the
  satellite and signal counts equal the number of distinct satellites per constellation and of signals.''',
  'src/sid_set.c', [('sid_set_add', 'src/sid_set.c'), ('sid_set_get_sat_count', 'src/sid_set.c')],
  'All sets and all pairs of valid signals for membership; all subsets of three satellites per code for counts.',
  'State space of 64 x 64 membership bits.', over=('inputs', 'histories'))
M('S05', 'GLONASS slot/frequency map keeps only valid pairs and writes under the lock',
  '''After any history of updates, each orbital slot 1-28 is unmapped or maps to the last valid channel 1-14 set for it; invalid updates change
  nothing; looking up a channel returns the lowest one or two slots using it. With callbacks installed every change happens between
  exactly one lock and one unlock call.''',
  'src/glo_map.c', [('glo_map_set_slot_id', 'src/glo_map.c'), ('glo_map_get_slot_id', 'src/glo_map.c')],
  'All reachable maps (15^28), all 16-bit slots and channels; lock callbacks observe the map.',
  'Tests set a few slots; lock placement is not observed by tests.', over=('inputs', 'histories', 'schedules'))
M('S06', 'SBAS satellites are attributed to exactly one provider',
  '''For every SBAS signal the provider reported is the one whose published list contains the PRN, none otherwise, and the lists contain
  exactly the published PRNs.''',
  'src/signal.c', [('get_sbas_system', 'src/signal.c')],
  'All SBAS codes and all 16-bit satellite numbers.', 'Only some PRNs are tested; 16-bit numbers alias 8-bit list entries.')

M('T01', 'GPS times and durations normalise to one canonical form',
  '''Normalising a GPS time, or adding seconds to it, keeps the instant and leaves the time of week in [0, one week); an unknown week stays
  unknown and weeks before it are refused. Durations keep their value and end with less than a week of seconds of the same sign as the
  weeks. The validity predicates accept exactly finite in-week times of non-negative weeks (of the current week cycle), or Unix times
  after the reference week.''',
  'src/gnss_time.c', [('unsafe_normalize_gps_time', 'src/gnss_time.c'), ('normalize_gps_time_duration', 'src/gnss_time.c'), ('gps_time_valid', 'src/gnss_time.c')],
  'All weeks and all real times within three weeks of normal, infinities and NaN for the predicates.',
  'Boundaries at the week edge and sign combinations are a measure-zero part of the inputs.',
  limits='Times of week within three weeks of [0, 1 week); real arithmetic.')
M('T02', 'Differences between GPS times equal the elapsed time',
  '''The difference of two known GPS times is the elapsed time with its sign; with an unknown week it is the representative within half a
  week. The split form has the same value in normal form and refuses invalid times. An instant is in a range exactly when it is not
  before the beginning and not after the end.''',
  'src/gnss_time.c', [('gpsdifftime', 'src/gnss_time.c'), ('gpsdifftime_week_second', 'src/gnss_time.c'), ('gpstime_in_range', 'src/gnss_time.c')],
  'All pairs (triples for ranges) of valid times, and of times with one or both weeks unknown.',
  'Week rollovers and unknown weeks multiply cases that tests sample.')
M('T03', 'Ambiguous weeks and epochs resolve to the nearest consistent instant',
  '''An unknown week is filled in with the week that puts the instant within half a week of the reference, truncated week numbers become the
  smallest week not before the reference that agrees with them modulo 1024 (256), and rounding (flooring) to a solution epoch gives
  the nearest (last) multiple of the period, including across the end of the week.''',
  'src/gnss_time.c', [('gps_time_match_weeks_safe', 'src/gnss_time.c'), ('gps_adjust_week_cycle', 'src/gnss_time.c'), ('round_to_epoch', 'src/gnss_time.c')],
  'All week numbers and references, all valid times, solution rates of 1, 2, 5, 10, 20, 50 and 100 Hz.',
  'The 16-bit pairs and the week edge are far more than tests sample.',
  limits='Fractions of an epoch up to 1-2^-40, real arithmetic.')
M('T04', 'GPS-UTC offsets and conversions are right at every leap second',
  '''The GPS-UTC offset, its inverse and the leap-second indicator follow the published leap seconds (or the broadcast parameters when
  usable) for every instant. Converting GPS time to UTC structures, dates, MJD, day of year or Unix time, and back, agrees with calendar
  arithmetic, and inserted seconds read 23:59:60 and convert back.''',
  'src/gnss_time.c include/swiftnav/leap_seconds.h', [('gps2utc', 'src/gnss_time.c'), ('get_gps_utc_offset', 'src/gnss_time.c'), ('utc2gps', 'src/gnss_time.c')],
  'Offsets: every week and time of week. Conversions: every instant of the days around leap seconds and of year and February ends 1980-2036; thorough: of every day until 2039.',
  'Errors appear only within a second of an event or in particular years.',
  limits='Fractions of a second up to 1-2^-40, real arithmetic.')
M('T05', 'GLONASS time converts to and from GPS time, leap seconds included',
  '''For every date of the 31 four-year intervals, GLONASS date and Moscow time of day convert to the GPS time of that instant and back,
  including 02:59:60 of inserted seconds, with the built-in table or broadcast parameters; interval or day numbers outside the ICD give the unknown time.''',
  'src/gnss_time.c', [('glo2gps', 'src/gnss_time.c'), ('gps2glo', 'src/gnss_time.c')],
  'Every instant of the days around leap seconds and interval year ends, and of 2024-2027; thorough: of all 31 intervals (1996-2119).',
  'Roll-over of day, month, year, interval and week at 21:00 UTC combined with leap seconds.',
  limits='Broadcast parameters: three sets without polynomial terms (event in mid-week, at the end of a week, none). The interval holding the non-leap year 2100 is only checked from GPS to GLONASS. Fractions of a second up to 1-2^-40.')
M('T06', 'Calendar dates, MJD and broken-down times agree with the Gregorian calendar',
  '''Breaking a week and time of week into a date gives the Gregorian year, month, day, day of year, weekday and time of day; converting dates
  to Modified Julian Dates and back, with or without the UTC structure, gives calendar arithmetic; leap years and month lengths are
  Gregorian.''',
  'src/gnss_time.c', [('make_utc_tm', 'src/gnss_time.c'), ('date2mjd', 'src/gnss_time.c'), ('mjd2date', 'src/gnss_time.c')],
  'Every week 0-32767 (1980-2608) and time of week; MJD for 1980-2060 (structures from 1984) and around century years, thorough until 2608.',
  'Century rules and year ends are rare dates; tests use a handful.',
  limits='Fractions of a second up to 1-2^-40, real arithmetic.')

M('N07', 'Accuracy indexes, fit intervals and issue-of-data checksums follow the ICDs',
  '''Every URA or SISA index decodes to the accuracy the ICD gives for it and undefined indexes to -1; a URA in metres encodes to the first
  index that covers it and to the invalid index if there is none, decoding and encoding being inverse. The GPS fit interval follows the
  flag and IODC table. The BeiDou-2 checksum is the CRC-24Q of the packed ephemeris fields in the published order.''',
  'src/ephemeris.c', [('encode_ura', 'src/ephemeris.c'), ('decode_ura_index', 'src/ephemeris.c'), ('decode_fit_interval', 'src/ephemeris.c'), ('get_bds2_iod_crc', 'src/ephemeris.c')],
  'All 256 indexes, all real URA values, all 65536 IODC with any flag, all ephemeris field values.',
  'Table edges (index 15/16, IODC 757) are single values.', limits='Scaled fields inside the range of the integer they are packed into.')
M('E01', 'Ephemerides are used only inside their validity interval',
  '''A healthy well-formed ephemeris is usable at a time exactly when that time is inside its validity interval: half a fit interval either
  side of the reference time for GPS, QZSS and GLONASS, one fit interval from it for Galileo and BeiDou, always for SBAS; where there is a
  clock reference time it must be known and inside too. Unknown weeks are resolved to the closest instant, and a missing time is never
  inside.''',
  'src/ephemeris.c', [('ephemeris_valid', 'src/ephemeris.c'), ('ephemeris_params_valid', 'src/ephemeris.c')],
  'All times of week of ephemeris, clock and query, all fit intervals up to a week, week distances 0, 1, 2 and 1024, unknown weeks.',
  'The interval edge and the week rollover are single instants; tests use a few times.',
  limits='Reference weeks 2, 1024, 2047, 2345, 4096, 32000; real arithmetic.')
M('E02', 'An ephemeris is reported with the first reason that makes it unusable',
  '''The status is, in this order: missing, not valid, no week, no fit interval, unknown signal, unhealthy, issue-of-data numbers out of range
  or contradicting each other, and otherwise valid; with a time, valid becomes too old outside the validity interval and no other status
  changes.''',
  'src/ephemeris.c', [('get_ephemeris_status_t', 'src/ephemeris.c'), ('ephemeris_valid_detailed', 'src/ephemeris.c')],
  'All bit patterns of the ephemeris, including unknown signal codes.',
  'The conditions are independent so their combinations are far more than tests try.')
M('E03', 'Satellite and signal health words are interpreted per signal as the ICDs say',
  '''A valid ephemeris is healthy exactly when its accuracy is usable and its health bits clear the signal asked for: for GPS by the summary
  bit and the signal component table, for the others all bits zero. The 6-bit, 8-bit and page 25 almanac words and the masked data
  health indication follow the same tables for every signal.''',
  'src/shm.c src/ephemeris.c', [('check_6bit_health_word', 'src/shm.c'), ('check_nav_dhi', 'src/shm.c'), ('ephemeris_healthy', 'src/ephemeris.c')],
  'All 256 health words, masks and signal codes, all URA values.', '64 words by 64 signals, of which tests use a few.')
M('E04', 'Two ephemerides compare equal exactly when all their navigation data agree',
  '''Equality holds exactly when signal, validity, health, reference week and time and every orbit, clock and issue-of-data field of the
  constellation agree (real fields within 1e-12); accuracy, fit interval and source do not matter.''',
  'src/ephemeris.c', [('ephemeris_equal', 'src/ephemeris.c')],
  'All pairs of ephemerides of every constellation.', 'A forgotten field is only visible for pairs differing in just that field.')
M('E05', 'Group delays are taken from the right broadcast term and scaled to the signal',
  '''The clock group delay of a signal is the broadcast term of its frequency pair times the squared frequency ratio to L1/E1 (unscaled for
  BeiDou and GLONASS, zero on the reference signal); signals without one give failure and leave the output and ephemeris untouched.''',
  'src/ephemeris.c', [('get_tgd_correction', 'src/ephemeris.c')],
  'All signals of the constellations with group delays, all broadcast values.', 'Most signals are never used in tests.')

M('N05', 'A GLONASS ephemeris is valid exactly when its five strings all decode',
  '''Assembling a GLONASS ephemeris from five strings yields a valid ephemeris exactly when every one of them passes its own decoding, with
  every field taken from its own string and the reference time converted from GLONASS to GPS time with the given UTC parameters; otherwise
  it is not valid and its reference time is unknown. The strings are not modified.''',
  'src/ephemeris.c src/decode_glo.c', [('decode_glo_ephemeris', 'src/ephemeris.c')],
  'All contents of each string in turn, with every combination of the others decoding or failing.',
  'Tests assemble one good set of strings.',
  limits='GLONASS to GPS time conversion is an uninterpreted function here (it is decided by T05). ' + REAL)
M('N06', 'GPS almanac, health, ionosphere and UTC pages decode as IS-GPS-200 defines',
  '''Decoding GPS subframe 4 and 5 pages yields, for every bit pattern, the almanac, almanac week, satellite health words, ionosphere
  coefficients and UTC parameters IS-GPS-200 defines (page identity, split fields, signs, scales, weeks resolved against the reference),
  and rejects pages of another identity.''',
  'src/almanac.c src/ionosphere.c src/gnss_time.c', [('almanac_decode', 'src/almanac.c'), ('almanac_decode_week', 'src/almanac.c'), ('decode_iono_parameters', 'src/ionosphere.c'), ('decode_utc_parameters', 'src/gnss_time.c')],
  'All contents of the eight data words, all satellites, representative reference weeks.',
  'Tests decode single recorded pages.', limits=REAL)
M('E06', 'Satellite position, velocity and acceleration follow the ICD orbit equations',
  '''The state computed from a Keplerian (GPS, QZSS, BeiDou incl. geostationary, Galileo) or SBAS ephemeris equals the ICD equations at the time
  from the reference epoch, and the velocity, acceleration and clock rate are the exact time derivatives of the position and clock offset.''',
  'src/ephemeris.c', [('calc_sat_state_kepler', 'src/ephemeris.c'), ('calc_sat_state_xyz', 'src/ephemeris.c')],
  'All orbit and clock parameter values and times, given the eccentric anomaly the iteration returns.',
  'Tests compare a few orbits to tolerances that hide small terms; acceleration is hardly tested.',
  limits='The eccentric anomaly is judged by the Kepler iteration it is computed with, not by its convergence. ' + REAL)
M('E07', 'GLONASS states are the ICD equations of motion integrated to the requested time',
  '''The GLONASS state at a time is the fourth-order Runge-Kutta solution of the ICD equations of motion from the broadcast state, in equal
  steps of at most one minute reaching exactly that time forwards or backwards, with the clock offset and rate of the ICD.''',
  'src/ephemeris.c', [('calc_sat_state_glo', 'src/ephemeris.c')],
  'All broadcast states, clock terms and times up to 30 steps either way.',
  'Direction, step count and the last partial step matter at times tests do not use.',
  limits='Times up to 30 minutes from the reference. ' + REAL)
M('E08', 'No satellite state, direction or Doppler is produced from an unusable ephemeris',
  '''State, azimuth/elevation and Doppler computations succeed exactly when the ephemeris is usable at the time and then equal the geometry
  of the computed state (Doppler being minus the range rate relative to the receiver over the wavelength); otherwise they fail and
  leave every output untouched.''',
  'src/ephemeris.c', [('calc_sat_state', 'src/ephemeris.c'), ('calc_sat_az_el', 'src/ephemeris.c'), ('calc_sat_doppler', 'src/ephemeris.c')],
  'All ephemerides of every constellation, all times, receiver positions and velocities.',
  'A missing gate shows only for an ephemeris that is unusable in that one way.', limits=REAL)
M('E09', 'Almanacs are used only when valid and healthy, and give the ICD orbit',
  '''An almanac is usable at a time exactly when it is valid, healthy and inside its fit interval; two almanacs are equal exactly when all
  their data agree; state, direction and Doppler equal the almanac orbit equations and fail, with outputs untouched, for an unusable almanac.''',
  'src/almanac.c', [('calc_sat_state_almanac', 'src/almanac.c'), ('almanac_valid', 'src/almanac.c'), ('almanac_equal', 'src/almanac.c')],
  'All almanac contents and times of GPS and SBAS.', 'Almanac tests cover a few satellites and times.', limits=REAL)
M('M01', 'The broadcast ionosphere delay is the IS-GPS-200 Klobuchar model',
  '''For every parameter set, time, receiver latitude and longitude, azimuth and elevation, the delay equals the IS-GPS-200 Klobuchar model,
  including the latitude clamp, the local time wrap, the minimum period and amplitude and the night-time constant.''',
  'src/ionosphere.c', [('calc_ionosphere', 'src/ionosphere.c')],
  'All real inputs.', 'Each clamp and the night branch is a region tests barely enter.', limits=REAL)
M('M02', 'The troposphere delay is the UNB3m model at every latitude and height',
  '''For every day of year, latitude, height and elevation the delay equals the UNB3m model: tables interpolated between 15 degree nodes, southern
  season shifted by half a year, height and low elevation clamped, no delay above 11 km. No table is read outside its bounds.''',
  'src/troposphere.c', [('calc_troposphere', 'src/troposphere.c')],
  'All real inputs, each latitude band in both hemispheres and each node.', 'Five bands in two hemispheres; tests use a few points.', limits=REAL)
M('M03', 'The geoid offset interpolates the model grid and never reads outside it',
  '''For every latitude and longitude in range, negative longitudes included, the geoid offset is the bicubic (next to the poles bilinear)
  interpolation of the surrounding grid nodes, with rows counted from the south pole and columns wrapping around in longitude; any other
  coordinate, NaN included, gives zero. No table element outside the grid is read.''',
  'src/geoid_model.c', [('get_geoid_offset', 'src/geoid_model.c')],
  'All real and NaN coordinates; all cells of the grid.', 'The grid has 64800 cells with seams at the poles, at 0 and at 360 degrees.',
  limits='The table contents are not judged. ' + REAL)
M('G01', 'Coordinate conversions follow WGS84 and the local frame is consistent',
  '''Degree/radian and geodetic to Earth-fixed conversions equal the WGS84 closed forms; the local frame of a reference point has north, east and
  down axes of its geodetic position, and rotating into it, out of it, with or without translation, are mutually inverse; azimuth is
  clockwise from north in [0, 2 pi) and elevation is the angle above the horizon.''',
  'src/coord_system.c', [('wgsllh2ecef', 'src/coord_system.c'), ('ecef2ned_matrix', 'src/coord_system.c'), ('wgsecef2azel', 'src/coord_system.c')],
  'All real coordinates and reference points.', 'Tests sample points; quadrant and sign errors hide in the others.', limits=REAL)
M('G02', 'Earth-fixed to geodetic conversion solves for latitude and height everywhere',
  '''Longitude is the exact angle in the equatorial plane (zero on the axis), latitude has the sign of z and is that of the Fukushima iteration
  run to 1e-16 or ten steps, height follows from it by the closing formula, and points on the axis give the poles and their height.''',
  'src/coord_system.c', [('wgsecef2llh', 'src/coord_system.c')],
  'All real coordinates, both hemispheres and the axis.', 'Tests sample points; convergence limits and the polar branch are rare.',
  limits='How close the iteration comes to the exact latitude is a numerical question and not judged. ' + REAL)
M('O01', 'Measurement comparison, clock corrections, lock times and biases are exact',
  '''Two measurements are equal exactly when every field agrees (reals within 1e-12) and are ordered by signal; satellite clock corrections add the
  clock error in the unit of each observable; lock times encode to the RTCM DF402 index that covers them, saturating, and decode back to
  it; the GLONASS bias prefers the open signal and is zero when not broadcast.''',
  'src/nav_meas.c src/glonass_phase_biases.c', [('nav_meas_equal', 'src/nav_meas.c'), ('encode_lock_time', 'src/nav_meas.c'), ('get_glonass_bias', 'src/glonass_phase_biases.c')],
  'All field values, all signals, all lock times, all masks.', 'A forgotten field or an edge of a power of two is a single case.', limits=REAL)
LIN = 'Dimensions are enumerated (up to 4, general inverse 1, 5 and 6). ' + REAL
M('L01', 'Matrix and vector operations compute their definitions',
  '''Products (real, 32 and 64 bit integer, diagonal), scaled sums, transpose, copy, submatrix, identity, upper triangle, dot and cross product,
  norm, mean, distance, normalisation and triangular solution equal their textbook definitions for all entries and touch nothing else.''',
  'src/linear_algebra.c', [('matrix_multiply', 'src/linear_algebra.c'), ('vector_cross', 'src/linear_algebra.c'), ('rsolve', 'src/linear_algebra.c')],
  'All entries, rectangular shapes included.', 'Square samples hide swapped dimensions; wrong strides read neighbouring rows.', limits=LIN)
M('L02', 'Matrix inverses, pseudoinverses and weighted least squares are exact',
  '''The inverse of every regular matrix is its inverse whatever row order pivoting needs, and a singular matrix is reported; the pseudoinverse of a tall or
  wide matrix of full rank satisfies its closed form, weighted or not; weighted least squares returns the solution and covariance of
  the normal equations, each only if asked for, and refuses underdetermined or singular systems.''',
  'src/linear_algebra.c', [('matrix_inverse', 'src/linear_algebra.c'), ('matrix_wlsq_solve', 'src/linear_algebra.c'), ('matrix_pseudoinverse', 'src/linear_algebra.c')],
  'All entries and weights, square, tall and wide shapes, several pivot orders.', 'Tests take a few matrices that need no pivoting and no weights.', limits=LIN)
M('L03', 'Triangular and orthogonal factorisations reproduce their matrix',
  '''Decomposing U D U' returns the same unit upper triangular U and diagonal D also for semidefinite matrices, D is never negative, and reconstruction gives
  the matrix back; the QR decomposition has an orthogonal factor, a triangular factor and the matrix as product, and solves the system.''',
  'src/linear_algebra.c', [('matrix_udu', 'src/linear_algebra.c'), ('matrix_reconstruct_udu', 'src/linear_algebra.c'), ('qrdecomp_square', 'src/linear_algebra.c')],
  'All positive semidefinite matrices up to 5x5 (QR 2x2).', 'Tests factor a few positive definite samples.', limits=LIN)
PV = REAL + ' The linear solver and the geodetic conversion are replaced by free answers (they have checks of their own); convergence is taken after two steps or never; sets of 4 to 8 measurements.'
F = 'src/single_epoch_solver.c'
M('P01', 'A position solution follows from the measurements and the least squares answer',
  """Each step linearises the pseudoranges (satellite clock, earth rotation, one clock per constellation) and rates at the current state, and the reported position,
  velocity, clock, time, covariances and dilutions of precision are those of the converged state; the solution is marked valid exactly when the result code is not negative, its velocity exactly when one was solved,
  and unsolvable or non converging systems, excessive GDOP, altitude or speed are refused with their code.""",
  F, [('calc_PVT_pred_internal', F), ('pvt_solve', F), ('vel_solve', F), ('compute_dops', F), ('filter_solution', F)],
  'All measurements, satellite states and solver answers.', 'Tests solve a handful of recorded epochs and compare loosely.', limits=PV)
M('P02', 'Only measurements admitted by mask and strategy enter a position solution',
  """Exactly the signals above the carrier to noise mask and admitted by the processing strategy are used and counted; with fewer satellites than states
  the answer is the insufficient measurements code, nothing is solved and the solution is marked invalid.""",
  F, [('calc_PVT_pred_internal', F), ('gps_l1ca_when_possible', F), ('obs_mask_check_passed', F)],
  'All measurement values, orders of signals and constellations, strategies and masks.', 'Tests cover a few sets with one order each.', limits=PV)
M('P03', 'Integrity monitoring accepts, repairs or refuses a solution by its residuals',
  """A redundant solution is accepted exactly if its normalised residuals pass the threshold; otherwise the one measurement without which
  the rest is solvable and consistent, with the smallest residuals, is excluded and reported, or failing that a second one too, and the solution is the one from the rest; if nothing helps or redundancy is missing, the result code says so and the solution is invalid.""",
  F, [('residual_test', F), ('pvt_repair', F), ('pvt_solve_raim', F), ('pvt_iter_masked', F)],
  'All residuals, positions of the bad measurements and velocity settings.', 'Tests have one bad measurement in one data set.', limits=PV)
M('P04', 'Measurements are weighted by the noise model of their signal',
  """Pseudorange and rate weights are the inverse variances of the model: nominal variance of the signal, carrier to noise and elevation terms, and the factors
  for missing phase lock and short tracking.""",
  F, [('calc_measurement_noises', F), ('pvt_solve', F), ('vel_solve', F)],
  'All signals with a noise model and all carrier to noise ratios, elevations, lock times and flags.', 'Tests only see the effect on a solution of a few signals.', limits=PV)
M('T07', 'Greenwich mean sidereal time follows UT1 and stays within one turn',
  """The sidereal angle is the IAU 1982 polynomial at 0 h UT1 of the UT1 day plus the sidereal rate times the time of day, reduced to [0, 2 pi),
  also where UT1 and UTC are on different days and for dates before 2000.""",
  'src/gnss_time.c', [('utc2gmst', 'src/gnss_time.c')],
  'All fractions and UT1-UTC offsets on ten dates at seven times of day.', 'Tests compare a few present day instants.', limits=REAL)
M('T08', 'The C++ operators on times agree with time arithmetic',
  """In C++ two times with known weeks compare earlier, later or equal as the instants they denote, "not later" and "not earlier" include equality, and times of which only one
  week is known are never equal; their difference is the elapsed time. Adding or subtracting seconds, on either side or in place, moves the instant by exactly that much
  and changes no other operand.""",
  'include/swiftnav/gnss_time.h', [('operator==', 'include/swiftnav/gnss_time.h'), ('operator<', 'include/swiftnav/gnss_time.h'), ('operator+', 'include/swiftnav/gnss_time.h')],
  'All pairs of valid times that differ by more than a microsecond or are the same, all shifts up to one and a half weeks.', 'The operators are used by C++ applications; the tests touch few of them.', limits=REAL)
M('S07', 'The C++ comparison operators on signals and ionosphere parameters are exact',
  """In C++ the six comparisons of signals follow one total order by constellation, code and satellite, and equality holds exactly for the same code and satellite.
  Two sets of ionosphere parameters compare equal when copied and unequal as soon as any parameter or the reference time differs.""",
  'include/swiftnav/signal.h include/swiftnav/ionosphere.h', [('operator<', 'include/swiftnav/signal.h'), ('operator==', 'include/swiftnav/ionosphere.h')],
  'All pairs of signals with a valid code; all parameter values and all changes above 1e-9 of one of them.', 'Ordering is over pairs of 64 x 65536 identifiers; a forgotten field shows only when that field alone differs.', limits='Parameters are ideal reals; signals with an invalid code are not ordered.')
M('R01', 'Subsystem status reports reach every registered receiver once and in order',
  """A report is delivered unchanged, with its own context, exactly once to each receiver registered at that moment, in order of registration; registering again
  replaces the earlier registration, registering no callback or deregistering removes it, and a reset removes all.""",
  'src/subsystem_status_report.c', [('swiftnav_send_subsystem_status_report', 'src/subsystem_status_report.c'),
   ('swiftnav_subsystem_status_report_callback_register', 'src/subsystem_status_report.c'), ('swiftnav_subsystem_status_report_callback_deregister', 'src/subsystem_status_report.c')],
  'All histories of operations on up to three receivers (by induction over the list), all report values.', 'Tests run a few short scripts.', limits='Three receivers; callbacks do not change the list while a report is sent.')
M('R02', 'Log messages go to the hooks set last with level, text and file name',
  """The pair of log hooks set last receives each message at or above the compiled level once with its level and text, detailed ones with the base name of the source file;
  clearing both restores the defaults, and shortening a path gives its base name as POSIX defines it.""",
  'src/logging.c', [('logging_set_implementation', 'src/logging.c'), ('truncate_path_', 'src/logging_common.c')],
  'All paths up to six characters.', 'Tests shorten a few paths.', limits='Path lengths up to 6; the arguments of a format are not interpreted.')
SP = 'Call graph of the C sources as built (clang, -O0, sroa); inline functions of headers as far as the sources use them.'
M('I01', 'No hidden state: public functions keep nothing between calls',
  """Apart from setting log hooks, status receivers and the GLONASS map, no function writes static storage, keeps the address of a static object, or hands one out,
  so calls on different data can run concurrently and equal calls give equal results.""",
  'src/glo_map.c src/logging.c src/single_epoch_solver.c src/ephemeris.c', [('calc_PVT', 'src/single_epoch_solver.c'), ('glo_map_set_slot_id', 'src/glo_map.c'), ('calc_sat_state', 'src/ephemeris.c')],
  'All call paths of all public functions.', 'State that survives a call shows only under particular call histories or threads.', limits=SP, technique='interprocedural mod-ref (effect) analysis over LLVM IR')
M('I02', 'Inputs passed as pointer to const are never modified',
  """What a public function receives through a parameter declared pointer to const in its header is left as it was, on every path and in every callee.""",
  'src/linear_algebra.c src/ephemeris.c src/gnss_time.c', [('matrix_inverse', 'src/linear_algebra.c'), ('decode_ephemeris', 'src/ephemeris.c'), ('gps2utc', 'src/gnss_time.c')],
  'All call paths of all public functions.', 'Tests rarely look at their inputs after a call.', limits=SP + ' Objects reached through a loaded pointer are not covered.', technique='interprocedural mod-ref (effect) analysis over LLVM IR and header declarations')
M('I04', 'No result depends on memory that was never written',
  """No library function reads a local variable before it has been given a value, and no function that promises a result ends without returning one, so equal inputs always
  give equal results.""",
  'src/single_epoch_solver.c src/ephemeris.c src/gnss_time.c', [('calc_PVT', 'src/single_epoch_solver.c'), ('calc_sat_state_n', 'src/ephemeris.c')],
  'All paths of all functions.', 'A read of stale stack memory gives plausible values in a test.',
  limits='Locals and return values by the flow analysis; arrays and structure members where the other checks interpret the function (event "uninit").',
  technique='flow analysis of definite assignment over the clang CFG')
M('I03', 'No heap allocation and no non-reentrant library function anywhere',
  """No call path of the library allocates from the heap or uses a library function that is not reentrant or whose effects are unknown, so calls cannot fail for lack of
  memory and are safe in embedded and multithreaded use.""",
  'src/single_epoch_solver.c src/linear_algebra.c src/logging.c', [('calc_PVT', 'src/single_epoch_solver.c'), ('logging_set_implementation', 'src/logging.c')],
  'All call paths.', 'Rare paths allocate or call only when they are taken.', limits=SP, technique='call graph effect analysis over LLVM IR')
M('X01', 'A single epoch position lies within its stated accuracy of the truth',
  """With measurements whose errors follow the noise model, the position, velocity and clock solved lie within the covariance reported,
  and the iteration converges for every satellite geometry that the dilution limits accept.""",
  'src/single_epoch_solver.c', [('pvt_solve', 'src/single_epoch_solver.c')],
  'All geometries and noise realisations.', 'Tests solve a few recorded epochs.',
  na='The convergence region of a Gauss-Newton iteration and the distribution of its result quantify over noise and rounding; no static argument in reach bounds them. One step of the iteration, weights and result codes are decided (P01-P04, L02).')
M('X02', 'Iterations that stop early leave an error below the documented tolerance',
  """The Kepler iteration, the geodetic conversion and the Runge-Kutta integration of GLONASS orbits end with an error far below a millimetre
  for every valid input.""",
  'src/ephemeris.c src/coord_system.c', [('calc_sat_state_kepler', 'src/ephemeris.c'), ('wgsecef2llh', 'src/coord_system.c'), ('calc_sat_state_glo', 'src/ephemeris.c')],
  'All orbits and positions.', 'Tests check a few points against reference values.',
  na='The residual after a convergence test is a statement about real analysis with rounding; the fixed points, steps and stopping rules are decided instead (E06, E07, G02).')
M('X03', 'Linear algebra stays accurate for ill conditioned matrices',
  """Inverses, factorisations and least squares solutions have a relative error proportional to the condition number of the matrix, up to the documented singularity threshold.""",
  'src/linear_algebra.c', [('matrix_inverse', 'src/linear_algebra.c'), ('qrsolve', 'src/linear_algebra.c')],
  'All matrices.', 'Tests use well conditioned random matrices.',
  na='Backward error bounds quantify over rounding; the algebra of the routines is decided exactly (L01-L03).')
