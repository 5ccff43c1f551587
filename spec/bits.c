#include <swiftnav/bits.h>
#include "util.h"

/* bit i of a buffer: most significant bit of byte 0 first */
static int bit(const u8 *b, u32 i) { return (b[i / 8] >> (7 - i % 8)) & 1; }
static u64 field(const u8 *b, u32 pos, u32 len) {
  u64 r = 0;
  for (u32 i = 0; i < len; i++) r = r * 2 + bit(b, pos + i);
  return r;
}
/* reference writer: bit by bit */
static void put(u8 *b, u32 pos, u32 len, u64 v) {
  for (u32 i = 0; i < len; i++) {
    int s = (int)(v >> (len - 1 - i)) & 1;
    u8 m = (u8)(1 << (7 - (pos + i) % 8));
    if (s)
      b[(pos + i) / 8] |= m;
    else
      b[(pos + i) / 8] &= (u8)~m;
  }
}

void h_parity(void) {
  u32 x = (u32)spec_any_u(32, "x");
  LIB;
  u8 p = parity(x);
  SPEC;
  int n = 0;
  for (int i = 0; i < 32; i++) n ^= (x >> i) & 1;
  spec_eq_u(p, n, "parity");
}
void h_interleave(void) {
  u8 x = (u8)spec_any_u(8, "x"), y = (u8)spec_any_u(8, "y");
  LIB;
  u16 z = bytes_interleave(x, y);
  SPEC;
  for (int i = 0; i < 8; i++) {
    spec_eq_u((z >> (2 * i)) & 1, (x >> i) & 1, "even bits");
    spec_eq_u((z >> (2 * i + 1)) & 1, (y >> i) & 1, "odd bits");
  }
}
void h_count(void) {
  u64 v = spec_any_u(64, "v");
  /* count set bits of the four widths: both senses */
  LIB;
  u8 a1 = count_bits_u8((u8)v, 1), a0 = count_bits_u8((u8)v, 0);
  u8 b1 = count_bits_u16((u16)v, 1), b0 = count_bits_u16((u16)v, 0);
  u8 c1 = count_bits_u32((u32)v, 1), c0 = count_bits_u32((u32)v, 0);
  u8 d1 = count_bits_u64(v, 1), d0 = count_bits_u64(v, 0);
  SPEC;
  u8 n = 0;
  for (int i = 0; i < 64; i++) {
    if (i == 8) spec_eq_u(a1, n, "u8 ones"), spec_eq_u(a0, 8 - n, "u8 zeros");
    if (i == 16) spec_eq_u(b1, n, "u16 ones"), spec_eq_u(b0, 16 - n, "u16 zeros");
    if (i == 32) spec_eq_u(c1, n, "u32 ones"), spec_eq_u(c0, 32 - n, "u32 zeros");
    n = (u8)(n + ((v >> i) & 1));
  }
  spec_eq_u(d1, n, "u64 ones");
  spec_eq_u(d0, 64 - n, "u64 zeros");
}
void h_get(void) {
  for (u32 pos = 0; pos < 12; pos++)
    for (u32 len = 0; len <= 32; len++) {
      u32 nb = (pos + len + 7) / 8; /* exactly the bytes that hold the field */
      u8 *b = (u8 *)__builtin_alloca(nb);
      spec_fill(b, nb, "buf");
      LIB;
      u32 v = getbitu(b, pos, (u8)len);
      SPEC;
      spec_eq_u(v, field(b, pos, len), "getbitu");
      if (len) {
        LIB;
        s32 s = getbits(b, pos, (u8)len);
        SPEC;
        spec_eq_i(s, sx(field(b, pos, len), (int)len), "getbits");
      }
    }
}
void h_getl(void) {
  for (u32 pos = 0; pos < 9; pos++)
    for (u32 len = 0; len <= 64; len += len > 28 && len < 36 ? 1 : len > 60 ? 1 : 4) {
      u32 nb = (pos + len + 7) / 8;
      u8 *b = (u8 *)__builtin_alloca(nb);
      spec_fill(b, nb, "buf");
      LIB;
      u64 v = getbitul(b, pos, (u8)len);
      SPEC;
      spec_eq_u(v, field(b, pos, len), "getbitul");
      if (len) {
        LIB;
        s64 s = getbitsl(b, pos, (u8)len);
        SPEC;
        spec_eq_i(s, sx(field(b, pos, len), (int)len), "getbitsl");
      }
    }
}
void h_set(void) {
  for (u32 pos = 0; pos < 9; pos++)
    for (u32 len = 0; len <= 33; len++) {
      u32 nb = (pos + (len > 32 ? 0 : len) + 7) / 8;
      u8 *b = (u8 *)__builtin_alloca(nb), *r = (u8 *)__builtin_alloca(nb);
      spec_fill(b, nb, "buf");
      memcpy(r, b, nb);
      u32 v = (u32)spec_any_u(32, "data");
      LIB;
      if (pos & 1)
        setbits(b, pos, len, (s32)v);
      else
        setbitu(b, pos, len, v);
      SPEC;
      if (len <= 32) put(r, pos, len, v);
      spec_same_bytes(b, r, nb, "setbitu");
    }
}
void h_setl(void) {
  for (u32 pos = 0; pos < 9; pos++)
    for (u32 len = 0; len <= 65; len += len > 28 && len < 36 ? 1 : len > 55 ? 1 : 3) {
      u32 nb = (pos + (len > 64 ? 0 : len) + 7) / 8;
      u8 *b = (u8 *)__builtin_alloca(nb), *r = (u8 *)__builtin_alloca(nb);
      spec_fill(b, nb, "buf");
      memcpy(r, b, nb);
      u64 v = spec_any_u(64, "data");
      LIB;
      if (pos & 1)
        setbitsl(b, pos, len, (s64)v);
      else
        setbitul(b, pos, len, v);
      SPEC;
      if (len <= 64) put(r, pos, len, v);
      spec_same_bytes(b, r, nb, "setbitul");
    }
}
void h_shl(void) {
  for (u32 size = 0; size <= 5; size++)
    for (u32 sh = 0; sh <= size * 8 + 9; sh++) {
      u8 *b = (u8 *)__builtin_alloca(size), *r = (u8 *)__builtin_alloca(size);
      spec_fill(b, size, "buf");
      for (u32 i = 0; i < size; i++) r[i] = 0;
      SPEC;
      for (u32 i = 0; i + sh < size * 8; i++)
        if (bit(b, i + sh)) r[i / 8] |= (u8)(1 << (7 - i % 8));
      LIB;
      bitshl(b, size, sh);
      SPEC;
      spec_same_bytes(b, r, size, "bitshl");
    }
}
void h_copy(void) {
  static const u8 ds[] = {0, 1, 4, 7, 9}, ss[] = {0, 2, 5, 7, 11}, cs[] = {0, 1, 8, 13, 31, 32, 33, 47, 64, 65};
  for (unsigned d = 0; d < 5; d++)
    for (unsigned s = 0; s < 5; s++)
      for (unsigned c = (d + s) % 2; c < 10; c += 2) {
        u32 dn = (ds[d] + cs[c] + 7u) / 8, sn = (ss[s] + cs[c] + 7u) / 8;
        u8 *dst = (u8 *)__builtin_alloca(dn), *ref = (u8 *)__builtin_alloca(dn), *src = (u8 *)__builtin_alloca(sn);
        spec_fill(dst, dn, "dst");
        memcpy(ref, dst, dn);
        spec_fill(src, sn, "src");
        LIB;
        bitcopy(dst, ds[d], src, ss[s], cs[c]);
        SPEC;
        for (u32 i = 0; i < cs[c]; i++) put(ref, ds[d] + i, 1, (u64)bit(src, ss[s] + i));
        spec_same_bytes(dst, ref, dn, "bitcopy");
      }
}
void h_endian(void) {
  u64 v = spec_any_u(64, "v");
  u16 a = (u16)v;
  u32 b = (u32)v;
  LIB;
  u16 s2 = byte_swap_16(a);
  u32 s4 = byte_swap_32(b);
  u64 s8 = byte_swap_64(v);
  u16 h2 = htobe_16(a), l2 = htole_16(a), x2 = betoh_16(a), y2 = letoh_16(a);
  u32 h4 = htobe_32(b), l4 = htole_32(b), x4 = betoh_32(b), y4 = letoh_32(b);
  u64 h8 = htobe_64(v), l8 = htole_64(v), x8 = betoh_64(v), y8 = letoh_64(v);
  SPEC;
  u64 r = 0;
  for (int i = 0; i < 8; i++) r = r << 8 | ((v >> (8 * i)) & 0xff);
  spec_eq_u(s8, r, "byte_swap_64");
  spec_eq_u(s4, (u32)(r >> 32), "byte_swap_32");
  spec_eq_u(s2, (u16)(r >> 48), "byte_swap_16");
  /* the analysed target is little endian */
  spec_eq_u(h8, r, "htobe_64"), spec_eq_u(x8, r, "betoh_64"), spec_eq_u(l8, v, "htole_64"), spec_eq_u(y8, v, "letoh_64");
  spec_eq_u(h4, (u32)(r >> 32), "htobe_32"), spec_eq_u(x4, (u32)(r >> 32), "betoh_32"), spec_eq_u(l4, b, "htole_32"), spec_eq_u(y4, b, "letoh_32");
  spec_eq_u(h2, (u16)(r >> 48), "htobe_16"), spec_eq_u(x2, (u16)(r >> 48), "betoh_16"), spec_eq_u(l2, a, "htole_16"), spec_eq_u(y2, a, "letoh_16");
}
