#include <swiftnav/edc.h>
#include "util.h"
/* CRC-24Q: generator 0x1864CFB, most significant bit first, one message bit at a time */
static u32 step(u32 r, int b) {
  int t = (int)((r >> 23) & 1) ^ b;
  r = (r << 1) & 0xffffff;
  return t ? r ^ 0x864cfb : r;
}
static u32 crcbytes(const u8 *b, u32 n, u32 r) {
  for (u32 i = 0; i < n; i++)
    for (int j = 7; j >= 0; j--) r = step(r, (b[i] >> j) & 1);
  return r;
}
static void crc_n(u32 n) {
  spec_begin();
  u8 *b = (u8 *)__builtin_alloca(n);
  spec_fill(b, n, "buf");
  u32 init = (u32)spec_any_u(24, "init");
  LIB;
  u32 c = crc24q(b, n, init);
  SPEC;
  spec_eq_u(c, crcbytes(b, n, init), "crc24q");
  spec_end();
}
void h_crc(void) {
  for (u32 n = 0; n <= 12; n++) crc_n(n);
}
void h_crc_long(void) { crc_n(64); }
/* left-aligned bit messages: padded in front with zero bits to a whole number of bytes */
static void crcbits_n(u32 n, u32 init) {
  spec_begin();
  u32 nb = (n + 7) / 8;
  u8 *b = (u8 *)__builtin_alloca(nb);
  spec_fill(b, nb, "buf");
  bool inv = spec_any_u(1, "invert");
  LIB;
  u32 c = crc24q_bits(init, b, n, inv);
  SPEC;
  u32 r = init;
  if (n % 8)
    for (u32 i = 0; i < 8 - n % 8; i++) r = step(r, 0);
  for (u32 i = 0; i < n; i++) r = step(r, ((b[i / 8] >> (7 - i % 8)) & 1) ^ inv);
  spec_eq_u(c, r, "crc24q_bits");
  spec_end();
}
void h_crcbits(void) {
  for (u32 n = 1; n <= 50; n++) crcbits_n(n, n % 8 ? (u32)spec_any_u(24, "init") : 0);
}
void h_crcbits_frames(void) {
  crcbits_n(226, 0); /* SBAS */
  crcbits_n(276, 0); /* CNAV */
}
