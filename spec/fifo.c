#include <swiftnav/fifo_byte.h>
#include <swiftnav/common.h>
#include "util.h"
/* Any reachable state of the queue: free-running 32-bit indices, 0 <= write - read <= size.  The buffer is exactly
   size bytes. SIZE is a small power of two; the code is uniform in it. */
#define STATE(size)                                       \
  u8 buf[size];                                           \
  spec_fill(buf, size, "ring");                           \
  u8 old[size];                                           \
  memcpy(old, buf, size);                                 \
  fifo_t f;                                               \
  u32 rd = (u32)spec_any_u(32, "read_index");             \
  u32 used = (u32)spec_any_u(4, "used");                  \
  spec_assume(used <= size);                              \
  f.read_index = rd, f.write_index = rd + used;           \
  f.buffer_size = size, f.buffer = buf;

static void consistent(const fifo_t *f, u8 *buf, u32 size, u32 rd, u32 wr) {
  spec_eq_u(f->read_index, rd, "read index");
  spec_eq_u(f->write_index, wr, "write index");
  spec_eq_u(f->buffer_size, size, "size");
  spec_eq_p(f->buffer, buf, "buffer");
}
#define PRODUCER(size)                                                               \
  void h_write_##size(void) {                                                        \
    STATE(size)                                                                      \
    u8 in[size + 3];                                                                 \
    spec_fill(in, sizeof in, "in");                                                  \
    u32 len = (u32)spec_any_u(4, "length");                                          \
    spec_assume(len <= size + 3);                                                    \
    spec_readonly(&f.read_index, 4, "read index");                                   \
    spec_readonly(&f.buffer_size, 4, "size");                                        \
    spec_readonly(&f.buffer, 8, "buffer pointer");                                   \
    spec_order(buf, size, &f.write_index, 4, "queue data");                          \
    LIB;                                                                             \
    u32 w = fifo_write(&f, in, len);                                                 \
    SPEC;                                                                            \
    spec_nowatch();                                                                  \
    u32 n = len < size - used ? len : size - used;                                   \
    spec_eq_u(w, n, "bytes accepted");                                               \
    consistent(&f, buf, size, rd, rd + used + n);                                    \
    for (u32 i = 0; i < size; i++) {                                                 \
      u32 slot = (rd + used + i) % size;                                             \
      spec_eq_u(buf[slot], i < n ? in[i] : old[slot], "queue contents");             \
    }                                                                                \
    spec_cover(w > 1 && (rd + used) % size + w > size, "wraps");                     \
  }
#define CONSUMER(size, name, call, removes, copies)                                   \
  void h_##name##_##size(void) {                                                      \
    STATE(size)                                                                       \
    u8 out[size + 3];                                                                 \
    spec_fill(out, sizeof out, "out");                                                \
    u8 o0[size + 3];                                                                  \
    memcpy(o0, out, sizeof out);                                                      \
    u32 len = (u32)spec_any_u(4, "length");                                           \
    spec_assume(len <= size + 3);                                                     \
    spec_readonly(&f.write_index, 4, "write index");                                  \
    spec_readonly(&f.buffer_size, 4, "size");                                         \
    spec_readonly(&f.buffer, 8, "buffer pointer");                                    \
    spec_readonly(buf, size, "queue data");                                           \
    spec_order(buf, size, &f.read_index, 4, "queue data");                            \
    LIB;                                                                              \
    u32 r = call;                                                                     \
    SPEC;                                                                             \
    spec_nowatch();                                                                   \
    u32 n = len < used ? len : used;                                                  \
    spec_eq_u(r, n, "bytes delivered");                                               \
    consistent(&f, buf, size, removes ? rd + n : rd, rd + used);                      \
    for (u32 i = 0; i < size + 3; i++)                                                \
      spec_eq_u(out[i], copies && i < n ? old[(rd + i) % size] : o0[i], "delivered"); \
    for (u32 i = 0; i < size; i++) spec_eq_u(buf[i], old[i], "queue contents");       \
    spec_cover(r > 1 && rd % size + r > size, "wraps");                               \
  }
#define QUERY(size)                                       \
  void h_query_##size(void) {                             \
    STATE(size)                                           \
    spec_readonly(&f, sizeof f, "queue");                 \
    LIB;                                                  \
    u32 l = fifo_length(&f), s = fifo_space(&f);          \
    SPEC;                                                 \
    spec_nowatch();                                       \
    spec_eq_u(l, used, "length");                         \
    spec_eq_u(s, size - used, "space");                   \
  }
#define ALL(size)                                                \
  PRODUCER(size)                                                 \
  CONSUMER(size, read, fifo_read(&f, out, len), 1, 1)            \
  CONSUMER(size, peek, fifo_peek(&f, out, len), 0, 1)            \
  CONSUMER(size, remove, fifo_remove(&f, len), 1, 0)             \
  QUERY(size)
ALL(2)
ALL(4)
ALL(8)
void h_init(void) {
  u8 buf[8];
  fifo_t f;
  spec_fill(&f, sizeof f, "f");
  u32 k = (u32)spec_any_u(2, "k");
  LIB;
  fifo_init(&f, buf, 1u << k);
  SPEC;
  consistent(&f, buf, 1u << k, 0, 0);
}
/* any length, including far larger than the buffers: nothing outside [out, out+len) and the ring is touched */
void h_big(void) {
  STATE(4)
  u8 in[4], out[4];
  spec_fill(in, 4, "in");
  u32 len = (u32)spec_any_u(32, "length");
  spec_assume(len >= 4);
  LIB;
  u32 w = fifo_write(&f, in, len);
  SPEC;
  spec_eq_u(w, 4 - used, "bytes accepted");
  LIB;
  u32 r = fifo_read(&f, out, len);
  SPEC;
  spec_eq_u(r, 4, "bytes delivered");
  for (u32 i = 0; i < 4; i++) spec_eq_u(out[i], i < used ? old[(rd + i) % 4] : in[i - used], "first in, first out");
  spec_eq_u(f.write_index - f.read_index, 0, "empty");
}

/* The other side runs at any moment: before each load of its index it may have advanced by any amount the queue allows. */
static fifo_t *X;
static void consumer_step(void) {
  u32 used = X->write_index - X->read_index;
  u32 k = (u32)spec_any_u(3, "consumed");
  X->read_index += k <= used ? k : 0;
}
static void producer_step(void) {
  u32 space = 4 - (X->write_index - X->read_index);
  u32 k = (u32)spec_any_u(3, "produced");
  X->write_index += k <= space ? k : 0;
}
void h_write_conc(void) {
  STATE(4)
  rd = 0xfffffffa + (u32)spec_any_u(3, "rd"); /* around the wrap of the index */
  f.read_index = rd, f.write_index = rd + used;
  u8 in[8];
  spec_fill(in, sizeof in, "in");
  u32 len = (u32)spec_any_u(3, "length");
  X = &f;
  spec_readonly(&f.read_index, 4, "read index");
  spec_order(buf, 4, &f.write_index, 4, "queue data");
  spec_volatile(&f.read_index, 4, consumer_step);
  LIB;
  u32 w = fifo_write(&f, in, len);
  SPEC;
  spec_nowatch();
  spec_novolatile();
  u32 eaten = f.read_index - rd;
  u32 lo = len < 4 - used ? len : 4 - used, hi = len < 4 - (used - eaten) ? len : 4 - (used - eaten);
  spec_check(w >= lo && w <= hi, "accepts what fits");
  spec_eq_u(f.write_index, rd + used + w, "write index");
  for (u32 i = 0; i < 4; i++) {
    u32 slot = (rd + used + i) % 4;
    spec_eq_u(buf[slot], i < w ? in[i] : old[slot], "queue contents");
  }
  spec_cover(w > 4 - used, "space freed meanwhile is used");
}
void h_read_conc(void) {
  STATE(4)
  rd = 0xfffffffa + (u32)spec_any_u(3, "rd"); /* around the wrap of the index */
  f.read_index = rd, f.write_index = rd + used;
  u8 out[8], o0[8];
  spec_fill(out, sizeof out, "out");
  memcpy(o0, out, 8);
  u32 len = (u32)spec_any_u(3, "length");
  bool peek = spec_any_u(1, "peek");
  X = &f;
  spec_readonly(&f.write_index, 4, "write index");
  spec_readonly(buf, 4, "queue data");
  spec_order(buf, 4, &f.read_index, 4, "queue data");
  spec_volatile(&f.write_index, 4, producer_step);
  LIB;
  u32 r = peek ? fifo_peek(&f, out, len) : fifo_read(&f, out, len);
  SPEC;
  spec_nowatch();
  spec_novolatile();
  u32 end = f.write_index - rd;
  u32 lo = len < used ? len : used, hi = len < end ? len : end;
  spec_check(r >= lo && r <= hi, "delivers what is there");
  spec_eq_u(f.read_index, peek ? rd : rd + r, "read index");
  for (u32 i = 0; i < 8; i++) spec_eq_u(out[i], i < r ? old[(rd + i) % 4] : o0[i], "delivered");
  spec_cover(r > used, "bytes that arrived meanwhile are delivered");
}
