From cc355c3d8bc17bfb2bffa9ecc12668da4c1a0b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 01/23] fix: crc24q_bits reads past the buffer when n_bits is a
 multiple of 8

---
 src/edc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/edc.c b/src/edc.c
index 79445f6..5a888f2 100644
--- a/src/edc.c
+++ b/src/edc.c
@@ -109,7 +109,11 @@ u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
     b = (acc >> shift) & 0xFFu;
     crc = ((crc << 8) & 0xFFFFFFu) ^ crc24qtab[((crc >> 16) ^ b) & 0xFFu];
   }
-  acc = (acc << 8) | *buf;
+  acc <<= 8;
+  if (n_bits % 8 != 0) {
+    /* trailing partial byte; without one there is nothing left to read */
+    acc |= *buf;
+  }
   if (invert) {
     acc ^= 0xFFu;
   }
-- 
2.43.0


From d88dda659edc4cf2bca8774cc4ea006a4c592f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 02/23] fix: bit and byte stream bounds checks wrap around in
 32 bits

---
 include/swiftnav/bitstream.h  | 4 ++--
 include/swiftnav/bytestream.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/swiftnav/bitstream.h b/include/swiftnav/bitstream.h
index 1644d4b..5a33363 100644
--- a/include/swiftnav/bitstream.h
+++ b/include/swiftnav/bitstream.h
@@ -26,7 +26,7 @@ typedef struct swiftnav_out_bitstream {
 
 static inline bool swiftnav_in_bitstream_would_overflow(
     const swiftnav_in_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((u64)buf->offset + pos + len) > buf->len;
 }
 
 static inline void swiftnav_in_bitstream_init(swiftnav_in_bitstream_t *buf,
@@ -88,7 +88,7 @@ static inline u32 swiftnav_in_bitstream_remaining(
 
 static inline bool swiftnav_out_bitstream_would_overflow(
     const swiftnav_out_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((u64)buf->offset + pos + len) > buf->len;
 }
 static inline void swiftnav_out_bitstream_init(swiftnav_out_bitstream_t *buf,
                                                uint8_t *data,
diff --git a/include/swiftnav/bytestream.h b/include/swiftnav/bytestream.h
index f2e5648..56fcf2c 100644
--- a/include/swiftnav/bytestream.h
+++ b/include/swiftnav/bytestream.h
@@ -20,7 +20,7 @@ typedef struct swiftnav_bytestream {
 
 static inline bool swiftnav_bytestream_would_overflow(
     const swiftnav_bytestream_t *buf, u32 index, u32 len) {
-  return (buf->offset + index + len) > buf->len;
+  return ((u64)buf->offset + index + len) > buf->len;
 }
 
 static inline void swiftnav_bytestream_init(swiftnav_bytestream_t *buf,
-- 
2.43.0


From 864db69c12933194050505450734eaed40704a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 03/23] fix: remove_element overruns the arrays when the
 element is larger than all others

---
 src/set.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/set.c b/src/set.c
index eb39851..b2d15cb 100644
--- a/src/set.c
+++ b/src/set.c
@@ -227,6 +227,13 @@ u32 remove_element(
    * If b is larger than all of as, the last element of as will be removed. */
   u32 index = insertion_index(na, sa, as, b, cmp);
 
+  if (na == 0) {
+    return index;
+  }
+  if (index == na) {
+    index = na - 1;
+  }
+
   memcpy(a_out, as, index * sa);
   memcpy((char *)a_out + index * sa,
          (const char *)as + (index + 1) * sa,
-- 
2.43.0


From 59fbc3b9d4702b555e32197831703f44f90e38bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 04/23] fix: signal table lookups read outside the tables for
 invalid codes

is_gps() and friends, sid_to_constellation(), code_to_string(),
constellation_to_string() and sub_constellation_to_string() indexed their
tables with CODE_INVALID / CONSTELLATION_INVALID (-1), e.g. when comparing
SID_UNKNOWN. get_sbas_system() matched PRN 0 with list padding and PRNs
modulo 256.
---
 src/signal.c | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index 38478b0..6a3431d 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -900,6 +900,9 @@ static const code_table_element_t code_table[CODE_COUNT + 1] = {
                     false},
 };
 
+/** String representation used for unknown code values. */
+static const char *unknown_str = "?";
+
 static const char *constellation_table[CONSTELLATION_COUNT] = {
     [CONSTELLATION_GPS] = "GPS",
     [CONSTELLATION_SBAS] = "SBAS",
@@ -918,6 +921,9 @@ static const char *sub_constellation_table[SUB_CONSTELLATION_COUNT] = {
     [SUB_CONSTELLATION_GAL] = "GAL"};
 
 const char *constellation_to_string(const constellation_t cons) {
+  if ((cons < 0) || (cons >= CONSTELLATION_COUNT)) {
+    return unknown_str;
+  }
   return constellation_table[cons];
 }
 
@@ -931,6 +937,9 @@ constellation_t constellation_string_to_enum(const char *constellation_string) {
 }
 
 const char *sub_constellation_to_string(const sub_constellation_t sub_cons) {
+  if ((sub_cons < 0) || (sub_cons >= SUB_CONSTELLATION_COUNT)) {
+    return unknown_str;
+  }
   return sub_constellation_table[sub_cons];
 }
 
@@ -1002,9 +1011,6 @@ static const sbas_prn_table_t sbas_prn_table[SBAS_COUNT] = {
     [SBAS_MSAS] = {{129, 137}},
 };
 
-/** String representation used for unknown code values. */
-static const char *unknown_str = "?";
-
 /** Construct a gnss_signal_t.
  *
  * \note This function does not check the validity of the resulting signal.
@@ -1149,6 +1155,9 @@ u16 sid_to_code_index(gnss_signal_t sid) {
  * \return Constellation to which sid belongs.
  */
 constellation_t sid_to_constellation(gnss_signal_t sid) {
+  if (!code_valid(sid.code)) {
+    return CONSTELLATION_INVALID;
+  }
   return code_table[sid.code].constellation;
 }
 
@@ -1288,7 +1297,9 @@ bool code_requires_decoder(code_t code) {
   return code_table[code].requires_data_decoder;
 }
 
-const char *code_to_string(const code_t code) { return code_table[code].str; }
+const char *code_to_string(const code_t code) {
+  return code_valid(code) ? code_table[code].str : unknown_str;
+}
 
 /**
  * Returns number of SV belongs to a constellation
@@ -1310,6 +1321,10 @@ const u8 *get_sbas_prn_list(sbas_system_t sbas_system) {
 /** Which system a given SBAS PRN belongs to */
 sbas_system_t get_sbas_system(const gnss_signal_t sid) {
   assert(IS_SBAS(sid));
+  /* PRNs are held in 8 bits, and lists shorter than the maximum are padded */
+  if (!sid_valid(sid)) {
+    return SBAS_NONE;
+  }
   for (sbas_system_t sbas_system = (sbas_system_t)0; sbas_system < SBAS_COUNT;
        sbas_system = sbas_system + 1) {
     if (is_value_in_array(sbas_prn_table[sbas_system].prn_list,
@@ -1333,7 +1348,8 @@ float code_to_phase_alignment(code_t code) {
  * \return  True if this is a GPS signal.
  */
 bool is_gps(const code_t code) {
-  return (CONSTELLATION_GPS == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_GPS == code_table[code].constellation);
 }
 
 /** Is this an SBAS signal?
@@ -1342,7 +1358,8 @@ bool is_gps(const code_t code) {
  * \return  True if this is an SBAS signal.
  */
 bool is_sbas(const code_t code) {
-  return (CONSTELLATION_SBAS == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_SBAS == code_table[code].constellation);
 }
 
 /** Is this a GLO signal?
@@ -1351,7 +1368,8 @@ bool is_sbas(const code_t code) {
  * \return  True if this is a GLO signal.
  */
 bool is_glo(const code_t code) {
-  return (CONSTELLATION_GLO == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_GLO == code_table[code].constellation);
 }
 
 /** Is this a BDS2 signal?
@@ -1360,7 +1378,8 @@ bool is_glo(const code_t code) {
  * \return  True if this is a Beidou generation 2 signal.
  */
 bool is_bds2(const code_t code) {
-  return (CONSTELLATION_BDS == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_BDS == code_table[code].constellation);
 }
 
 /** Is this a Galileo signal?
@@ -1369,7 +1388,8 @@ bool is_bds2(const code_t code) {
  * \return  True if this is a Galileo signal.
  */
 bool is_gal(const code_t code) {
-  return (CONSTELLATION_GAL == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_GAL == code_table[code].constellation);
 }
 
 /** Is this a QZSS signal?
@@ -1378,7 +1398,8 @@ bool is_gal(const code_t code) {
  * \return  True if this is a QZSS signal.
  */
 bool is_qzss(const code_t code) {
-  return (CONSTELLATION_QZS == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_QZS == code_table[code].constellation);
 }
 
 /** Return signal count for a signal code */
-- 
2.43.0


From 9c1f2ed8b6f26b9845e066cb93b61b4a2cb3ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 05/23] fix: compare Unix times with the reference week in
 time_t, not int

wn_ref * WEEK_SECS + GPS_EPOCH overflows int for reference weeks from
3029 on, which accepted times before the reference week.
---
 src/gnss_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 7d59b34..6e7c62d 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -50,7 +50,7 @@ bool unix_time_valid(const time_t *t) {
  */
 bool unix_time_valid_with_wn_ref(const time_t *t, u16 wn_ref) {
   return (isfinite((float)*t) && ((*t) >= 0) &&
-          ((*t) > (wn_ref * WEEK_SECS) + GPS_EPOCH));
+          ((*t) > (time_t)wn_ref * WEEK_SECS + GPS_EPOCH));
 }
 
 /** Tell whether a `gps_time_t` struct is valid and within current GPS week
-- 
2.43.0


From 391cb35a3b5542d4c4567ede16443f5e713a6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 06/23] fix: reject URA index 16 instead of reading past the
 table

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index b872a7e..ac1f884 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1168,7 +1168,7 @@ static const float gps_ura_values[URA_VALUE_TABLE_LEN] = {
  */
 float decode_ura_index(const u8 index) {
   /* Invalid index */
-  if (URA_VALUE_TABLE_LEN < index) {
+  if (URA_VALUE_TABLE_LEN <= index) {
     return INVALID_URA_VALUE;
   }
 
-- 
2.43.0


From 1aa2cf230efc4e39a5fb64450329c04fbcd9ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 07/23] fix: report EPH_INVALID_SID for an unknown code instead
 of asserting

---
 src/ephemeris.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index ac1f884..b439248 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -886,6 +886,9 @@ ephemeris_status_t get_ephemeris_status_t(const ephemeris_t *e) {
   if (0 == e->fit_interval) {
     return EPH_FIT_INTERVAL_EQ_0;
   }
+  if (!code_valid(e->sid.code)) {
+    return EPH_INVALID_SID;
+  }
   if (!ephemeris_healthy(e, e->sid.code)) {
     return EPH_UNHEALTHY;
   }
-- 
2.43.0


From e27896f6a2189c44df694c5dbfc914f6ca8510c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 08/23] fix: sign of the radius correction in the Kepler
 satellite acceleration

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index b439248..daa74dc 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -473,7 +473,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   /* Calculate the radius correction */
   double dr = (k->crs * sin2al + k->crc * cos2al);
   double dr_dot = 2 * al_dot * (k->crs * cos2al - k->crc * sin2al);
-  double dr_acc = 4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
+  double dr_acc = -4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
 
   /* Calculate corrected radius based on argument of latitude. */
   double r = a * temp + k->crc * cos2al + k->crs * sin2al;
-- 
2.43.0


From 6ecb2f4bf16ef98085079bca4c817954b099d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 09/23] fix: sign of the eccentric anomaly acceleration

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index daa74dc..c593b1f 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -446,7 +446,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   } while (fabs(ea - ea_old) > 1.0E-14);
 
   double ea_dot = ma_dot / temp;
-  double ea_acc = ea_dot * ea_dot * ecc * sin(ea) / temp;
+  double ea_acc = -ea_dot * ea_dot * ecc * sin(ea) / temp;
 
   /* Begin calc for True Anomaly and Argument of Latitude */
   double temp2 = sqrt(1.0 - ecc * ecc);
-- 
2.43.0


From 4dc5745233bf2d321bec151b57d93b18228ff450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 10/23] fix: subtract the receiver velocity in the predicted
 Doppler

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index c593b1f..0c57b6a 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -808,7 +808,7 @@ s8 calc_sat_doppler(const ephemeris_t *e,
   vector_subtract(3, sat_pos, ref_pos, vec_ref_sat_pos);
 
   /* Find the velocity diff between receiver and satellite. */
-  vector_add(3, sat_vel, ref_vel, vec_ref_sat_vel);
+  vector_subtract(3, sat_vel, ref_vel, vec_ref_sat_vel);
 
   /* Find the satellite - receiver velocity projected on the line of sight
    * vector from the reference position to the satellite. */
-- 
2.43.0


From f93923c697a556774b59f1faf21f83b084e91108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 11/23] fix: rotate the velocity and acceleration of BDS GEO
 satellites to BDCS

---
 src/ephemeris.c | 50 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 0c57b6a..11e1a93 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -340,6 +340,22 @@ static s8 calc_sat_state_glo(const ephemeris_t *e,
   return 0;
 }
 
+/** Rotate a vector from the user-defined inertial system of a BDS GEO satellite
+ * to BDCS, see BDS-SIS-ICD-2.1 Table 5-11.
+ *
+ * \param v Vector to rotate in place
+ * \param sin_ome Sine of the rotation angle of the Earth
+ * \param cos_ome Cosine of the rotation angle of the Earth
+ */
+static void rotate_geo_to_bdcs(double v[3], double sin_ome, double cos_ome) {
+  const double x = v[0];
+  const double y = v[1];
+  const double z = v[2];
+  v[0] = x * cos_ome + y * sin_ome * COS_5 + z * sin_ome * (-SIN_5);
+  v[1] = -x * sin_ome + y * cos_ome * COS_5 + z * cos_ome * (-SIN_5);
+  v[2] = -y * (-SIN_5) + z * COS_5;
+}
+
 /** Calculate satellite position, velocity and clock offset from GPS ephemeris.
  *
  * References:
@@ -543,23 +559,6 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   pos[1] = x * sin(om) + y * cos(inc) * cos(om);
   pos[2] = y * sin(inc);
 
-  /* transform GEO user-defined inertial system to BDCS, similar applies to
-   * velocity and acceleration */
-  if (orbit_type == GEO) {
-    double pos_bds[3];
-    double sin_ome = sin(BDS2_OMEGAE_DOT * dt);
-    double cos_ome = cos(BDS2_OMEGAE_DOT * dt);
-    pos_bds[0] = pos[0] * cos_ome + pos[1] * sin_ome * COS_5 +
-                 pos[2] * sin_ome * (-SIN_5);
-    pos_bds[1] = -pos[0] * sin_ome + pos[1] * cos_ome * COS_5 +
-                 pos[2] * cos_ome * (-SIN_5);
-    pos_bds[2] = -pos[1] * (-SIN_5) + pos[2] * COS_5;
-
-    pos[0] = pos_bds[0];
-    pos[1] = pos_bds[1];
-    pos[2] = pos_bds[2];
-  }
-
   /* Compute the satellite's velocity in Earth-Centered Earth-Fixed
    * coordiates. */
   temp = y_dot * cos(inc) - y * sin(inc) * inc_dot;
@@ -581,6 +580,23 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   acc[2] = sin(inc) * (-y * inc_dot * inc_dot + y_acc) +
            cos(inc) * (y * inc_acc + 2 * inc_dot * y_dot);
 
+  /* transform GEO user-defined inertial system to BDCS, with the rotation of
+   * BDCS taken into account in the velocity and acceleration */
+  if (orbit_type == GEO) {
+    double sin_ome = sin(BDS2_OMEGAE_DOT * dt);
+    double cos_ome = cos(BDS2_OMEGAE_DOT * dt);
+    rotate_geo_to_bdcs(pos, sin_ome, cos_ome);
+    rotate_geo_to_bdcs(vel, sin_ome, cos_ome);
+    rotate_geo_to_bdcs(acc, sin_ome, cos_ome);
+
+    vel[0] += BDS2_OMEGAE_DOT * pos[1];
+    vel[1] -= BDS2_OMEGAE_DOT * pos[0];
+
+    double omega_sqr = BDS2_OMEGAE_DOT * BDS2_OMEGAE_DOT;
+    acc[0] += 2 * BDS2_OMEGAE_DOT * vel[1] + omega_sqr * pos[0];
+    acc[1] += -2 * BDS2_OMEGAE_DOT * vel[0] + omega_sqr * pos[1];
+  }
+
   return 0;
 }
 
-- 
2.43.0


From 6621207f4420b5ef97809c9c61b1d705d12a4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 12/23] fix: reject NaN coordinates in get_geoid_offset instead
 of indexing with them

---
 src/geoid_model.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoid_model.c b/src/geoid_model.c
index dca6549..212d3a1 100644
--- a/src/geoid_model.c
+++ b/src/geoid_model.c
@@ -87,7 +87,7 @@ geoid_model_t get_geoid_model(void) { return GEOID_MODEL_EGM2008; }
 float get_geoid_offset(double lat_rad, double lon_rad) {
   /* Convert to degrees, returning 0.0 if out of bounds */
   float lat_deg = (float)(R2D * lat_rad);
-  if (lat_deg > MAX_LAT || lat_deg < MIN_LAT) {
+  if (!(lat_deg <= MAX_LAT && lat_deg >= MIN_LAT)) {
     log_error("Invalid latitude passed to get_geoid_offset: %lf", lat_rad);
     return 0.0;
   }
@@ -96,7 +96,7 @@ float get_geoid_offset(double lat_rad, double lon_rad) {
   if (lon_deg < 0.) {
     lon_deg += 360.f;
   }
-  if (lon_deg > MAX_LON || lon_deg < MIN_LON) {
+  if (!(lon_deg <= MAX_LON && lon_deg >= MIN_LON)) {
     log_error("Invalid longitude passed to get_geoid_offset: %lf", lon_rad);
     return 0.0;
   }
-- 
2.43.0


From 0cf9cb7255025458d670c071db2b48a07460a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 13/23] fix: saturate lock times that do not fit in 32 bit
 milliseconds

---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 7ce44c8..21137de 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -148,7 +148,7 @@ u8 encode_lock_time(double nm_lock_time) {
 
   /* Convert to milliseconds */
   u32 ms_lock_time;
-  if (nm_lock_time < UINT32_MAX) {
+  if (nm_lock_time * SECS_MS < UINT32_MAX) {
     ms_lock_time = (u32)(nm_lock_time * SECS_MS);
   } else {
     ms_lock_time = UINT32_MAX;
-- 
2.43.0


From d853f70e3e1df819e3874ef3c7ae092681df17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 14/23] fix: lock times of exactly a power of two encode to the
 index they decode from

---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 21137de..d3689b2 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -158,7 +158,7 @@ u8 encode_lock_time(double nm_lock_time) {
     return 0;
   }
   for (u8 i = 0; i < 16; i++) {
-    if (ms_lock_time > (1u << (i + 5))) {
+    if (ms_lock_time >= (1u << (i + 5))) {
       continue;
     }
     return i;
-- 
2.43.0


From 8a19710afe2c92d063167660625cc56a490e55b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 15/23] fix: do not convert a NaN latitude to a troposphere
 table index

---
 src/troposphere.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/troposphere.c b/src/troposphere.c
index a303a7d..454387c 100644
--- a/src/troposphere.c
+++ b/src/troposphere.c
@@ -96,7 +96,7 @@ static double lookup_param(double lat, const double *lut) {
     return lut[0];
     /* Below/above +/- 75 degrees latitude */
   }
-  if (lat >= 75.0) {
+  if (!(lat < 75.0)) {
     return lut[4];
   }
   /* Otherwise interpolate the value */
-- 
2.43.0


From dbb5466ffed35c1a186659ed2d121ec5fa677d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 16/23] fix: sum all rows of the normal matrix and index its
 inverse by columns in matrix_atwaiat

---
 src/linear_algebra.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index e2ab958..aef2729 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -720,7 +720,7 @@ inline int matrix_atwaiat(
       } else {
         /* Otherwise, assign both off-diagonal elements at once. */
         for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
+          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + i];
         }
         c[m * j + i] = c[m * i + j];
       }
@@ -734,7 +734,7 @@ inline int matrix_atwaiat(
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
         for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+          b[n * i + j] += inv[m * i + k] * a[m * j + k];
         }
       }
     }
-- 
2.43.0


From d049301c8193eec2bed9bdcfd255732352067544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 17/23] fix: implement matrix_atawati for matrices with fewer
 rows than columns

---
 src/linear_algebra.c | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index aef2729..dcbf93f 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -758,7 +758,7 @@ inline int matrix_atwaiat(
  *  \param w            Diagonal vector of weighting matrix
  *  \param b            Output matrix
  *
- *  \return     -1 if n <= m or singular; 0 otherwise
+ *  \return     -1 if n >= m or singular; 0 otherwise
  */
 inline int matrix_atawati(
     u32 n, u32 m, const double *a, const double *w, double *b) {
@@ -767,43 +767,33 @@ inline int matrix_atawati(
   assert(n > 0 && m > 0);
 
   /* Check to make sure we're doing the right operation */
-  if (n <= m) {
+  if (n >= m) {
     return -1;
   }
 
-  LSN_NEW_ARRAY(c, m * m, double);
-  LSN_NEW_ARRAY(inv, m * m, double);
+  LSN_NEW_ARRAY(c, n * n, double);
+  LSN_NEW_ARRAY(inv, n * n, double);
 
-  /* TODO(MP) -- implement! */
   /* The resulting matrix is symmetric, so compute both halves at
    * once */
-  for (i = 0; i < m; i++) {
-    for (j = i; j < m; j++) {
-      c[m * i + j] = 0;
-      if (i == j) {
-        /* If this is a diagonal element, just sum the squares of the
-         * column of A weighted by the weighting vector. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + j];
-        }
-      } else {
-        /* Otherwise, assign both off-diagonal elements at once. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
-        }
-        c[m * j + i] = c[m * i + j];
+  for (i = 0; i < n; i++) {
+    for (j = i; j < n; j++) {
+      c[n * i + j] = 0;
+      for (k = 0; k < m; k++) {
+        c[n * i + j] += w[k] * a[m * i + k] * a[m * j + k];
       }
+      c[n * j + i] = c[n * i + j];
     }
   }
 
-  int res = matrix_inverse(m, c, inv);
+  int res = matrix_inverse(n, c, inv);
 
   if (0 == res) {
     for (i = 0; i < m; i++) {
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
-        for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+        for (k = 0; k < n; k++) {
+          b[n * i + j] += a[m * k + i] * inv[n * k + j];
         }
       }
     }
@@ -853,8 +843,8 @@ inline int matrix_ataiat(u32 n, u32 m, const double *a, double *b) {
 inline int matrix_ataati(u32 n, u32 m, const double *a, double *b) {
   u32 i = 0;
   int res = 0;
-  LSN_NEW_ARRAY(w, n, double);
-  for (i = 0; i < n; i++) {
+  LSN_NEW_ARRAY(w, m, double);
+  for (i = 0; i < m; i++) {
     w[i] = 1;
   }
   res = matrix_atawati(n, m, a, w, b);
-- 
2.43.0


From 4ee50a40a0625fd85f683ca71dda93f71ee910da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 18/23] fix: clear the solution's valid flag when there are too
 few measurements

---
 src/single_epoch_solver.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 53c6229..ed9de6c 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1407,11 +1407,11 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   sid_set_init(&removed_sids);
   lsq_data_t lsq_data;
 
-  if (raim_flag >= PVT_CONVERGED_RAIM_OK) {
-    soln->valid = 0;
-    soln->n_sats_used = 0;
-    soln->n_sigs_used = 0;
+  soln->valid = 0;
+  soln->n_sats_used = 0;
+  soln->n_sigs_used = 0;
 
+  if (raim_flag >= PVT_CONVERGED_RAIM_OK) {
     /* Set up the working data for LSQ iterations */
     assert(MAX_CHANNELS >= n_processed_meas_used);
 
-- 
2.43.0


From 6d41fe7c969a15a730ad3dea2507d8d8d84f426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 19/23] fix: report no clock drift variance instead of
 uninitialised memory when velocity is disabled

---
 src/single_epoch_solver.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index ed9de6c..e3c685d 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -564,6 +564,7 @@ static s8 pvt_solve(const u8 n_used,
     /* No velocity solution */
     memset(&(lsq_data->rx_state[n_states]), 0, n_states * sizeof(double));
     memset(lsq_data->omp_doppler, 0, sizeof(lsq_data->omp_doppler));
+    memset(lsq_data->V_vel, 0, sizeof(lsq_data->V_vel));
   } else {
     /* Perform the velocity solution. */
     vel_solve(n_used, n_states, nav_meas, G, lsq_data);
-- 
2.43.0


From 9811d3413465ff13e9b3cae85dc42e30e36489c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 20/23] fix: keep utc2gmst within 0 to 2 pi for dates before
 2000

---
 src/gnss_time.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 6e7c62d..1763147 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -615,8 +615,12 @@ double utc2gmst(utc_tm u, double ut1_utc) {
   gmst0 = 24110.54841 + 8640184.812866 * t1 + 0.093104 * t2 - 6.2E-6 * t3;
   gmst = gmst0 + 1.002737909350795 * ut;
 
-  return fmod(gmst, (double)DAY_SECS) * M_PI /
-         (double)(DAY_SECS / 2); /* 0 <= gmst <= 2*PI */
+  gmst = fmod(gmst, (double)DAY_SECS);
+  if (gmst < 0) {
+    /* dates before 2000 */
+    gmst += (double)DAY_SECS;
+  }
+  return gmst * M_PI / (double)(DAY_SECS / 2); /* 0 <= gmst <= 2*PI */
 }
 
 /** Transform GPS time into GLONASS time
-- 
2.43.0


From ab07e124db76b7404bfefb10119466a29706caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:11 +0000
Subject: [PATCH 21/23] fix: registering a subsystem status receiver again or
 with a null callback

---
 src/subsystem_status_report.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/subsystem_status_report.c b/src/subsystem_status_report.c
index 7ed377e..c42226c 100644
--- a/src/subsystem_status_report.c
+++ b/src/subsystem_status_report.c
@@ -20,6 +20,12 @@ void swiftnav_subsystem_status_report_callback_register(
     swiftnav_subsystem_status_report_callback_node_t* callback_node,
     pfn_subsystem_status_report callback,
     void* context) {
+  /* a node that is still registered would otherwise end up linked to itself */
+  swiftnav_subsystem_status_report_callback_deregister(callback_node);
+  if (callback == NULL) {
+    return;
+  }
+
   callback_node->callback = callback;
   callback_node->context = context;
   callback_node->next = NULL;
-- 
2.43.0


From 61d0bfeb18ccab932c520253e12bf4675444beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 22/23] fix: no leap second event when the broadcast parameters
 announce none

---
 src/gnss_time.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 1763147..3466516 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -1084,7 +1084,9 @@ bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) {
      * the (positive) leap second event */
     double dt = gpsdifftime(t, &p->t_lse);
 
-    if (dt >= 0.0 && dt < 1.0) {
+    /* only when the offset grows a (positive) leap second is announced; when it
+     * does not change the event time is meaningless */
+    if (p->dt_lsf > p->dt_ls && dt >= 0.0 && dt < 1.0) {
       /* time is during the leap second event */
       return true;
     }
-- 
2.43.0


From 91cc3f721fca7ece3f0584e64a2a89f548f205fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 23/23] fix: report no velocity when it was not solved

Without a measured Doppler on every signal vel_solve() leaves the velocity
at zero, but the solution was marked velocity_valid and its velocity
covariance and the Doppler residuals of the RAIM test were uninitialised.
---
 src/single_epoch_solver.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index e3c685d..7d0c05e 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -90,6 +90,8 @@ typedef struct {
   /* observed-minus-predicted measurements */
   double omp_range[MAX_CHANNELS];
   double omp_doppler[MAX_CHANNELS];
+  /* set if the velocity part of the state was solved */
+  bool velocity_solved;
 } lsq_data_t;
 
 /** Estimate measurement noises from elevation, cn0 and tracking flags.
@@ -560,14 +562,15 @@ static s8 pvt_solve(const u8 n_used,
 
   /* The solution has converged! */
 
-  if (disable_velocity) {
+  /* Perform the velocity solution. */
+  lsq_data->velocity_solved =
+      !disable_velocity &&
+      0 == vel_solve(n_used, n_states, nav_meas, G, lsq_data);
+  if (!lsq_data->velocity_solved) {
     /* No velocity solution */
     memset(&(lsq_data->rx_state[n_states]), 0, n_states * sizeof(double));
     memset(lsq_data->omp_doppler, 0, sizeof(lsq_data->omp_doppler));
     memset(lsq_data->V_vel, 0, sizeof(lsq_data->V_vel));
-  } else {
-    /* Perform the velocity solution. */
-    vel_solve(n_used, n_states, nav_meas, G, lsq_data);
   }
 
   /* Prepare a separate un-weighted geometry matrix for DOP computations in H */
@@ -641,8 +644,9 @@ static bool residual_test(const u8 n_used,
 
   u8 n_meas;
   u8 raim_n_state;
+  const bool use_doppler = !disable_velocity && lsq_data->velocity_solved;
 
-  if (disable_velocity) {
+  if (!use_doppler) {
     /* One measurement per signal */
     n_meas = n_used;
     raim_n_state = n_states;
@@ -660,14 +664,14 @@ static bool residual_test(const u8 n_used,
    * iteration of pvt_solve by the measurement variances */
   for (u8 i = 0; i < n_used; i++) {
     residual[i] = lsq_data->omp_range[i];
-    if (!disable_velocity) {
+    if (use_doppler) {
       residual[n_used + i] = lsq_data->omp_doppler[i];
     }
     calc_measurement_noises(nav_meas[i], &pr_var, &dop_var);
     if (!double_equal(pr_var, 0)) {
       residual[i] /= sqrt(pr_var);
     }
-    if (!disable_velocity && !double_equal(dop_var, 0)) {
+    if (use_doppler && !double_equal(dop_var, 0)) {
       residual[n_used + i] /= sqrt(dop_var);
     }
   }
@@ -802,6 +806,7 @@ static s8 pvt_iter(const u8 n_used,
   assert(n_used > 0);
   /* Reset state to zero */
   memset(lsq_data->rx_state, 0, 2 * n_states * sizeof(double));
+  lsq_data->velocity_solved = false;
 
   /* G is a geometry matrix tells us how our pseudoranges relate to
    * our state estimates -- it's the Jacobian of d(p_i)/d(x_j) where
@@ -1522,7 +1527,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
 
   soln->valid = 1;
 
-  if (!disable_velocity) {
+  if (lsq_data.velocity_solved) {
     soln->velocity_valid = 1;
   } else {
     soln->velocity_valid = 0;
@@ -1539,7 +1544,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
                       clock_map,
                       processed_nav_meas_ptrs,
                       lsq_data.rx_state,
-                      disable_velocity,
+                      !lsq_data.velocity_solved,
                       &sid_set,
                       &removed_sids)) {
       raim_flag = PVT_CONVERGED_RAIM_REPAIR;
-- 
2.43.0

