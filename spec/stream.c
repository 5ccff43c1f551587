#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
#include "util.h"
#define NB 3
#define NBITS 21
static int bit(const u8 *b, u32 i) { return (b[i / 8] >> (7 - i % 8)) & 1; }
static u64 field(const u8 *b, u32 pos, u32 len) {
  u64 r = 0;
  for (u32 i = 0; i < len; i++) r = r * 2 + (u64)bit(b, pos + i);
  return r;
}
/* every 32-bit position, length and offset */
#define GET(name, T, call, mx, want)                                        \
  void h_in_##name(void) {                                                  \
    u8 data[NB];                                                            \
    spec_fill(data, NB, "data");                                            \
    for (u32 len = mx == 0 ? 1 : 0; len <= 12; len++) {                     \
      swiftnav_in_bitstream_t s;                                            \
      swiftnav_in_bitstream_init(&s, data, NBITS);                          \
      u32 off = (u32)spec_any_u(32, "offset"), pos = (u32)spec_any_u(32, "pos"); \
      s.offset = off;                                                       \
      T v = (T)spec_any_u(64, "old"), v0 = v;                               \
      spec_readonly(&s, sizeof s, "stream state");                          \
      LIB;                                                                  \
      bool ok = call(&s, &v, pos, len);                                     \
      SPEC;                                                                 \
      spec_nowatch();                                                       \
      bool fits = (u64)off + pos + len <= NBITS;                            \
      spec_eq_u(ok, fits, "accepted exactly when inside the stream");       \
      if (ok)                                                               \
        spec_eq_i((s64)v, (s64)(T)(want(field(data, off + pos, len), (int)len)), "value"); \
      else                                                                  \
        spec_eq_i((s64)v, (s64)v0, "output untouched on failure");          \
      spec_cover(ok, "success");                                            \
      spec_cover(!ok, "failure");                                           \
    }                                                                       \
  }
#define U(x, n) (x)
GET(u, u32, swiftnav_in_bitstream_getbitu, 1, U)
GET(s, s32, swiftnav_in_bitstream_getbits, 0, sx)
GET(ul, u64, swiftnav_in_bitstream_getbitul, 1, U)
GET(sl, s64, swiftnav_in_bitstream_getbitsl, 0, sx)

#define SET(name, T, call)                                                  \
  void h_out_##name(void) {                                                 \
    for (u32 len = 1; len <= 12; len += 1 + len / 4) {                      \
      u8 data[NB], ref[NB];                                                 \
      spec_fill(data, NB, "data");                                          \
      memcpy(ref, data, NB);                                                \
      swiftnav_out_bitstream_t s;                                           \
      swiftnav_out_bitstream_init(&s, data, NBITS);                         \
      u32 off = (u32)spec_any_u(32, "offset"), pos = (u32)spec_any_u(32, "pos"); \
      s.offset = off;                                                       \
      T v = (T)spec_any_u(64, "value");                                     \
      spec_readonly(&s, sizeof s, "stream state");                          \
      LIB;                                                                  \
      bool ok = call(&s, &v, pos, len);                                     \
      SPEC;                                                                 \
      spec_nowatch();                                                       \
      bool fits = (u64)off + pos + len <= NBITS;                            \
      spec_eq_u(ok, fits, "accepted exactly when inside the stream");       \
      u32 at = off + pos;                                                   \
      for (u32 i = 0; i < NB * 8; i++) {                                    \
        int b = bit(ref, i);                                                \
        for (u32 k = 0; k < len; k++)                                       \
          if (ok && at + k == i) b = (int)((u64)v >> (len - 1 - k)) & 1;    \
        spec_eq_u(bit(data, i), b, "buffer");                               \
      }                                                                     \
    }                                                                       \
  }
SET(u, u32, swiftnav_out_bitstream_setbitu)
SET(s, s32, swiftnav_out_bitstream_setbits)
SET(ul, u64, swiftnav_out_bitstream_setbitul)
SET(sl, s64, swiftnav_out_bitstream_setbitsl)

void h_wide(void) {
  /* the widest fields */
  u8 data[12], ref[12];
  spec_fill(data, 12, "data");
  memcpy(ref, data, 12);
  swiftnav_in_bitstream_t s;
  swiftnav_in_bitstream_init(&s, data, 96);
  swiftnav_out_bitstream_t o;
  swiftnav_out_bitstream_init(&o, data, 96);
  spec_eq_u(s.offset, 0, "starts at 0");
  spec_eq_u(o.offset, 0, "starts at 0");
  for (u32 p = 0; p < 80; p += 7) {
    u32 a = 0;
    u64 b = 0;
    LIB;
    bool ok1 = swiftnav_in_bitstream_getbitu(&s, &a, p, 32);
    bool ok2 = swiftnav_in_bitstream_getbitul(&s, &b, p, 64);
    SPEC;
    spec_eq_u(ok1, p + 32 <= 96, "accepted");
    spec_eq_u(ok2, p + 64 <= 96, "accepted");
    if (ok1) spec_eq_u(a, field(data, p, 32), "u32");
    if (ok2) spec_eq_u(b, field(data, p, 64), "u64");
  }
}
void h_cursor(void) {
  u8 data[4];
  swiftnav_in_bitstream_t s;
  swiftnav_out_bitstream_t o;
  swiftnav_bytestream_t b;
  u32 len = (u32)spec_any_u(32, "len"), off = (u32)spec_any_u(32, "offset"), n = (u32)spec_any_u(32, "n");
  spec_assume((u64)off + n <= 0xffffffffu);
  s.data = data, s.len = len, s.offset = off;
  o.data = data, o.len = len, o.offset = off;
  b.data = data, b.len = len, b.offset = off;
  LIB;
  swiftnav_in_bitstream_remove(&s, n);
  swiftnav_out_bitstream_remove(&o, n);
  swiftnav_bytestream_remove(&b, n);
  u32 r1 = swiftnav_in_bitstream_remaining(&s), r2 = swiftnav_out_bitstream_remaining(&o), r3 = swiftnav_bytestream_remaining(&b);
  SPEC;
  u32 want = off + n > len ? 0 : len - (off + n);
  spec_eq_u(r1, want, "remaining"), spec_eq_u(r2, want, "remaining"), spec_eq_u(r3, want, "remaining");
  spec_eq_u(s.offset, off + n, "offset"), spec_eq_u(o.offset, off + n, "offset"), spec_eq_u(b.offset, off + n, "offset");
  spec_eq_u(s.len, len, "len"), spec_eq_u(o.len, len, "len"), spec_eq_u(b.len, len, "len");
}
#define DEC(name, T)                                                        \
  void h_dec_##name(void) {                                                 \
    for (u32 size = 0; size <= 10; size++) {                                \
      u8 *data = (u8 *)__builtin_alloca(size);                              \
      spec_fill(data, size, "data");                                        \
      swiftnav_bytestream_t s;                                              \
      swiftnav_bytestream_init(&s, data, size);                             \
      u32 off = (u32)spec_any_u(32, "offset");                              \
      s.offset = off;                                                       \
      bool big = spec_any_u(1, "big");                                      \
      s.endianess = big ? SWIFT_BIG_ENDIAN : SWIFT_LITTLE_ENDIAN;           \
      T v = (T)spec_any_u(64, "old"), v0 = v;                               \
      spec_readonly(&s.data, 8, "stream data pointer");                     \
      spec_readonly(&s.len, 4, "stream length");                            \
      LIB;                                                                  \
      bool ok = swiftnav_bytestream_decode_##name(&s, &v);                  \
      SPEC;                                                                 \
      spec_nowatch();                                                       \
      spec_eq_u(ok, (u64)off + sizeof(T) <= size, "accepted exactly when enough bytes are left"); \
      if (ok) {                                                             \
        u64 w = 0;                                                          \
        for (u32 i = 0; i < sizeof(T); i++) w = w << 8 | data[off + (big ? i : (u32)sizeof(T) - 1 - i)]; \
        spec_eq_u((u64)(s64)v, (u64)(s64)(T)w, "value");                    \
        spec_eq_u(s.offset, off + sizeof(T), "advances");                   \
      } else {                                                              \
        spec_eq_u((u64)(s64)v, (u64)(s64)v0, "output untouched on failure"); \
        spec_eq_u(s.offset, off, "stays");                                  \
      }                                                                     \
    }                                                                       \
  }
DEC(u8, u8) DEC(s8, s8) DEC(u16, u16) DEC(s16, s16) DEC(u32, u32) DEC(s32, s32) DEC(u64, u64) DEC(s64, s64)
void h_bytes(void) {
  u8 data[6], out[8], o0[8];
  spec_fill(data, 6, "data");
  spec_fill(out, 8, "out");
  memcpy(o0, out, 8);
  swiftnav_bytestream_t s;
  s.data = data, s.len = 6;
  s.offset = (u32)spec_any_u(32, "offset");
  u32 idx = (u32)spec_any_u(32, "index"), len = (u32)spec_any_u(32, "len");
  spec_readonly(&s, sizeof s, "stream state");
  LIB;
  bool ok = swiftnav_bytestream_get_bytes(&s, idx, len, out);
  SPEC;
  spec_nowatch();
  spec_eq_u(ok, (u64)s.offset + idx + len <= 6, "accepted exactly when inside the stream");
  u32 at = s.offset + idx;
  for (u32 i = 0; i < 8; i++) spec_eq_u(out[i], ok && i < len ? data[(at + i) % 6] : o0[i], "bytes");
}
