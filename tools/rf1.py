RF = []
def R(*a): RF.append(a)
R('parity_loop', 'src/bits.c', [('''  x ^= x >> 16;
  x ^= x >> 8;
  x ^= x >> 4;
  x &= 0xF;
  return (0x6996 >> x) & 1;''', '''  u8 p = 0;
  while (x != 0) {
    p ^= 1;
    x &= x - 1;
  }
  return p;''')], 'parity')
R('parity_fold', 'src/bits.c', [('''  x ^= x >> 4;
  x &= 0xF;
  return (0x6996 >> x) & 1;''', '''  x ^= x >> 4;
  x ^= x >> 2;
  x ^= x >> 1;
  return (u8)(x & 1u);''')], 'parity')
R('getbitu_down', 'src/bits.c', [('''  u32 bits = 0;

  for (u32 i = pos; i < pos + len; i++) {
    bits = (bits << 1) + ((buff[i / 8] >> (7 - i % 8)) & 1u);
  }

  return bits;''', '''  u32 bits = 0;
  u8 left = len;
  while (left > 0) {
    left--;
    const u32 at = pos + left;
    if (buff[at >> 3] & (0x80u >> (at & 7u))) {
      bits |= 1u << (len - 1 - left);
    }
  }
  return bits;''')], 'getbitu')
R('getbitu_bytes', 'src/bits.c', [('''  u32 bits = 0;

  for (u32 i = pos; i < pos + len; i++) {
    bits = (bits << 1) + ((buff[i / 8] >> (7 - i % 8)) & 1u);
  }

  return bits;''', '''  if (len == 0) {
    return 0;
  }
  u64 acc = 0;
  const u32 first = pos / 8, last = (pos + len - 1) / 8;
  for (u32 b = first; b <= last; b++) {
    acc = (acc << 8) | buff[b];
  }
  acc >>= 7 - (pos + len - 1) % 8;
  return (u32)(acc & ((len < 32) ? ((1u << len) - 1u) : 0xFFFFFFFFu));''')], 'getbitu')
R('interleave_while', 'src/bits.c', [('''    z |= (x & 1U << i) << i | (y & 1U << i) << (i + 1);''', '''    const u16 xb = (x >> i) & 1U;
    const u16 yb = (y >> i) & 1U;
    z = (u16)(z + (xb << (2 * i)) + (yb << (2 * i + 1)));''')], 'bytes_interleave')
R('crc_helper', 'src/edc.c', [('''u32 crc24q(const u8 *buf, u32 len, u32 crc) {
  for (u32 i = 0; i < len; i++) {
    crc = ((crc << 8) & 0xFFFFFF) ^ crc24qtab[((crc >> 16) ^ buf[i]) & 0xff];
  }
  return crc;''', '''static inline u32 crc_step(u32 crc, u8 byte) {
  const u8 index = (u8)((crc >> 16) ^ byte);
  return ((crc << 8) ^ crc24qtab[index]) & 0xFFFFFF;
}

u32 crc24q(const u8 *buf, u32 len, u32 crc) {
  const u8 *end = buf + len;
  while (buf != end) {
    crc = crc_step(crc, *buf++);
  }
  return crc;''')], 'crc24q')
R('crcbits_helper', 'src/edc.c', [('''    b = (acc >> shift) & 0xFFu;
    crc = ((crc << 8) & 0xFFFFFFu) ^ crc24qtab[((crc >> 16) ^ b) & 0xFFu];
  }
  acc <<= 8;''', '''    b = (u8)(acc >> shift);
    crc = crc24q(&b, 1, crc);
  }
  acc <<= 8;'''), ('''  b = (acc >> shift) & 0xFFu;
  crc = ((crc << 8) & 0xFFFFFFu) ^ crc24qtab[((crc >> 16) ^ b) & 0xFFu];

  return crc;''', '''  b = (u8)(acc >> shift);
  return crc24q(&b, 1, crc);''')], 'crc24q_bits')
R('fifo_copyout', 'src/fifo_byte.c', [('''fifo_size_t fifo_peek(fifo_t *fifo,''', '''static void copy_out(const fifo_t *fifo, fifo_size_t from, uint8_t *to, fifo_size_t n) {
  fifo_size_t first = fifo->buffer_size - from;
  if (first > n) {
    first = n;
  }
  memcpy(to, &fifo->buffer[from], first);
  if (n > first) {
    memcpy(&to[first], fifo->buffer, n - first);
  }
}

fifo_size_t fifo_peek(fifo_t *fifo,'''), ('''    if (read_index_masked + read_length <= fifo->buffer_size) {
      /* One contiguous block */
      memcpy(buffer, &fifo->buffer[read_index_masked], read_length);
    } else {
      /* Two contiguous blocks */
      fifo_size_t copy_len_a = fifo->buffer_size - read_index_masked;
      memcpy(buffer, &fifo->buffer[read_index_masked], copy_len_a);
      memcpy(&buffer[copy_len_a], fifo->buffer, read_length - copy_len_a);
    }''', '''    copy_out(fifo, read_index_masked, buffer, read_length);''')], 'fifo_peek')
R('fifo_byteloop', 'src/fifo_byte.c', [('''    fifo_size_t write_index_masked = fifo->write_index & INDEX_MASK(fifo);
    if (write_index_masked + write_length <= fifo->buffer_size) {
      /* One contiguous block */
      memcpy(&fifo->buffer[write_index_masked], buffer, write_length);
    } else {
      /* Tow contiguous blocks */
      fifo_size_t copy_len_a = fifo->buffer_size - write_index_masked;
      memcpy(&fifo->buffer[write_index_masked], buffer, copy_len_a);
      memcpy(fifo->buffer, &buffer[copy_len_a], write_length - copy_len_a);
    }

    /* Atomic write of write_index */
    fifo->write_index += write_length;''', '''    fifo_size_t at = fifo->write_index;
    for (fifo_size_t i = 0; i < write_length; i++) {
      fifo->buffer[(at + i) & INDEX_MASK(fifo)] = buffer[i];
    }
    fifo->write_index = at + write_length;''')], 'fifo_write')
R('isset_while', 'src/set.c', [('''  const void *current = set;
  for (u8 i = 1; i < n; i++) {
    const void *next = (const char *)set + sz * i;
    if (cmp(next, current) <= 0) {
      return false;
    }
    current = next;
  }
  return true;''', '''  const char *p = (const char *)set;
  bool ordered = true;
  while (ordered && n > 1) {
    ordered = cmp(p + sz, p) > 0;
    p += sz;
    n--;
  }
  return ordered;''')], 'is_set')
R('inter_while', 'src/set.c', [('''  u32 ia, ib, n = 0;

  for (ia = 0, ib = 0; ia < na && ib < nb; ia++, ib++) {
    const void *a = (const char *)as + sa * ia;
    const void *b = (const char *)bs + sb * ib;
    if (cmp(a, b) < 0) {
      ib--;
    } else if (cmp(a, b) > 0) {
      ia--;
    } else {
      f(context, n, a, b);
      n++;
    }
  }
  return n;''', '''  u32 ia = 0, ib = 0, n = 0;
  const char *a = (const char *)as;
  const char *b = (const char *)bs;

  while (ia < na && ib < nb) {
    const int order = cmp(a, b);
    if (order == 0) {
      f(context, n++, a, b);
    }
    if (order <= 0) {
      ia++;
      a += sa;
    }
    if (order >= 0) {
      ib++;
      b += sb;
    }
  }
  return (s32)n;''')], 'intersection_map')
R('remove_move', 'src/set.c', [('''  memcpy(a_out, as, index * sa);
  memcpy((char *)a_out + index * sa,
         (const char *)as + (index + 1) * sa,
         (na - index - 1) * sa);

  return index;''', '''  char *out = (char *)a_out;
  for (u32 i = 0; i < na; i++) {
    if (i == index) {
      continue;
    }
    memcpy(out, (const char *)as + i * sa, sa);
    out += sa;
  }
  return index;''')], 'remove_element')
