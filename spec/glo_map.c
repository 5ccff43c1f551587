#include <swiftnav/glo_map.h>
#include <swiftnav/signal.h>
#include "util.h"
static u32 depth, calls;
static u16 m[29];     /* the mapping a user expects, 0: none */
static u32 hold_slot; /* slot whose change must be seen only between lock and unlock */
static u16 hold_old, hold_new;

static gnss_signal_t glo(u32 slot) {
  gnss_signal_t s = {.sat = (u16)slot, .code = CODE_GLO_L1OF};
  return s;
}
static u16 look(u32 slot) {
  if (!glo_map_valid(glo(slot))) return 0;
  return glo_map_get_fcn(glo(slot));
}
static void on_lock(void) {
  SPEC;
  spec_check(depth == 0, "the map is not locked twice");
  depth++, calls++;
  if (hold_slot) {
    LIB;
    u16 v = look(hold_slot);
    SPEC;
    spec_eq_u(v, hold_old, "nothing is written before the lock is taken");
  }
  LIB;
}
static void on_unlock(void) {
  SPEC;
  spec_check(depth == 1, "unlock follows lock");
  depth--;
  if (hold_slot) {
    LIB;
    u16 v = look(hold_slot);
    SPEC;
    spec_eq_u(v, hold_new, "nothing is written after the lock is released");
  }
  LIB;
}
/* any state reachable by any history of calls: every slot unmapped or mapped to 1..14 */
static void any_history(void) {
  depth = calls = hold_slot = 0;
  LIB;
  glo_map_init(NULL, NULL);
  glo_map_clear_all();
  SPEC;
  for (u32 i = 1; i <= 28; i++) {
    u16 f = (u16)spec_any_u(4, "fcn");
    spec_assume(f <= 14);
    m[i] = f;
    LIB;
    if (f) glo_map_set_slot_id(f, (u16)i);
    SPEC;
  }
  LIB;
  glo_map_init(on_lock, on_unlock);
  SPEC;
}
static void same(const char *what) {
  for (u32 i = 1; i <= 28; i++) {
    LIB;
    u16 v = look(i);
    SPEC;
    spec_eq_u(v, m[i], what);
  }
  spec_check(depth == 0, "the lock is released");
}
void h_set(void) {
  u16 slot = (u16)spec_any_u(16, "slot"), f = (u16)spec_any_u(16, "new fcn");
  any_history();
  bool ok = slot >= 1 && slot <= 28 && f >= 1 && f <= 14;
  LIB;
  glo_map_set_slot_id(f, slot);
  SPEC;
  spec_eq_u(calls, ok, "one locked section per accepted update");
  for (u32 i = 1; i <= 28; i++)
    if (ok && slot == i) m[i] = f;
  same("mapping after an update");
}
void h_lock(void) {
  for (u32 i = 1; i <= 28; i++) {
    spec_begin();
    u16 f = (u16)spec_any_u(4, "new fcn");
    spec_assume(f >= 1 && f <= 14);
    any_history();
    hold_slot = i, hold_old = m[i], hold_new = f;
    LIB;
    glo_map_set_slot_id(f, (u16)i);
    SPEC;
    hold_old = f, hold_new = 0;
    LIB;
    glo_map_clear_slot_id((u16)i);
    SPEC;
    hold_slot = 0;
    m[i] = 0;
    same("mapping after clearing");
    spec_eq_u(calls, 2, "one locked section per update");
    spec_end();
  }
}
void h_clear_all(void) {
  any_history();
  LIB;
  glo_map_clear_all();
  SPEC;
  for (u32 i = 1; i <= 28; i++) m[i] = 0;
  same("mapping after clearing everything");
  spec_eq_u(calls, 28, "every write is locked");
}
/* the two lowest slots using a frequency */
static void slots(u16 f) {
  u16 a, b;
  any_history();
  a = (u16)spec_any_u(16, "a"), b = (u16)spec_any_u(16, "b");
  LIB;
  u8 n = glo_map_get_slot_id(f, &a, &b);
  SPEC;
  u32 w = 0;
  u16 x = 0, y = 0;
  for (u32 i = 1; i <= 28; i++) {
    bool hit = m[i] == f;
    y = hit && w == 1 ? (u16)i : y;
    x = hit && w == 0 ? (u16)i : x;
    w = hit && w < 2 ? w + 1 : w;
  }
  spec_eq_u(n, w, "number of slots");
  spec_eq_u(a, x, "first slot");
  spec_eq_u(b, y, "second slot");
}
void h_slots(void) {
  for (u16 f = 1; f <= 14; f++) {
    spec_begin();
    slots(f);
    spec_end();
  }
}
void h_slots_none(void) {
  u16 f = (u16)spec_any_u(16, "fcn");
  spec_assume(f > 14);
  slots(f);
}
/* without callbacks nothing is called */
void h_no_lock(void) {
  u16 slot = (u16)spec_any_u(16, "slot"), f = (u16)spec_any_u(16, "new fcn");
  any_history();
  LIB;
  glo_map_init(NULL, NULL);
  glo_map_set_slot_id(f, slot);
  glo_map_clear_slot_id(3);
  SPEC;
  spec_eq_u(calls, 0, "no callback");
}
/* frequencies of the FDMA signals */
void h_freq(void) {
  u32 slot = (u32)spec_any_u(5, "slot");
  spec_assume(slot >= 1 && slot <= 28);
  any_history();
  u32 f = 0;
  for (u32 i = 1; i <= 28; i++) f = slot == i ? m[i] : f;
  spec_assume(f != 0);
  gnss_signal_t a = {.sat = (u16)slot, .code = CODE_GLO_L1OF}, b = {.sat = (u16)slot, .code = CODE_GLO_L2OF};
  LIB;
  double f1 = sid_to_carr_freq(a), f2 = sid_to_carr_freq(b), l1 = sid_to_lambda(a), l2 = sid_to_lambda(b);
  SPEC;
  double k = (double)f - 8.0;
  spec_eq_d(f1, 1602.0e6 + k * 562.5e3, "L1OF carrier");
  spec_eq_d(f2, 1246.0e6 + k * 437.5e3, "L2OF carrier");
  spec_eq_d(l1, 299792458.0 / (1602.0e6 + k * 562.5e3), "L1OF wavelength");
  spec_eq_d(l2, 299792458.0 / (1246.0e6 + k * 437.5e3), "L2OF wavelength");
}
