/* The list of receivers of subsystem status reports. */
#include <swiftnav/subsystem_status_report.h>
#include "spec.h"

#define N 3
static swiftnav_subsystem_status_report_callback_node_t node[N];
static int got, who[N + 2], ctx_of[N + 2];
static u16 c0;
static u8 g0, s0;
static int ctxs[8];
static void note(int f, u16 c, u8 g, u8 s, void *ctx) {
  SPEC;
  spec_eq_u(c, c0, "component"), spec_eq_u(g, g0, "generic status"), spec_eq_u(s, s0, "specific status");
  spec_check(got < N, "no more calls than receivers");
  int v = -1; /* no context */
  if (ctx) v = *(int *)ctx;
  for (int i = 0; i < N; i++)
    if (got == i) who[i] = f, ctx_of[i] = v;
  got++;
  LIB;
}
static void fa(u16 c, u8 g, u8 s, void *x) { note(1, c, g, s, x); }
static void fb(u16 c, u8 g, u8 s, void *x) { note(2, c, g, s, x); }

/* reference: slots in order of registration; the newest registration of a receiver replaces an older one */
static int n_ref, r_node[N], r_fn[N], r_ctx[N];
static void ref_remove(int k) {
  int j = 0;
  for (int i = 0; i < N; i++)
    if (i < n_ref && r_node[i] != k) {
      for (int q = 0; q < N; q++)
        if (q == j) r_node[q] = r_node[i], r_fn[q] = r_fn[i], r_ctx[q] = r_ctx[i];
      j++;
    }
  n_ref = j;
}
static void send(void) {
  SPEC;
  c0 = spec_any_u(16, "component"), g0 = spec_any_u(8, "generic"), s0 = spec_any_u(8, "specific");
  got = 0;
  LIB;
  swiftnav_send_subsystem_status_report(c0, g0, s0);
  SPEC;
  spec_eq_i(got, n_ref, "number of receivers called");
  for (int i = 0; i < N; i++)
    if (i < n_ref) spec_eq_i(who[i], r_fn[i], "receiver called, in order of registration"), spec_eq_i(ctx_of[i], r_ctx[i], "context given");
}
static void step(void) {
  SPEC;
  int t = spec_any_u(3, "operation"), kk = spec_any_u(2, "receiver");
  spec_assume(t < 5 && kk < N);
  int x = spec_any_u(2, "context");
  int *cx = &ctxs[0];
  if (x == 1) cx = &ctxs[1];
  if (x == 2) cx = 0;
  if (t == 4) {
    LIB;
    swiftnav_subsystem_status_report_callback_reset();
    SPEC;
    n_ref = 0;
  } else {
    for (int k = 0; k < N; k++)
      if (kk == k) {
        if (t == 0) {
          LIB;
          swiftnav_subsystem_status_report_callback_deregister(&node[k]);
          SPEC;
        } else {
          LIB;
          swiftnav_subsystem_status_report_callback_register(&node[k], t == 1 ? fa : t == 2 ? fb : 0, cx);
          SPEC;
        }
        ref_remove(k);
        if (t == 1 || t == 2)
          for (int i = 0; i < N; i++)
            if (i == n_ref) r_node[i] = k, r_fn[i] = t, r_ctx[i] = x == 2 ? -1 : x == 1 ? 101 : 100;
        n_ref += t == 1 || t == 2;
      }
  }
}
static void start(void) {
  SPEC;
  for (int i = 0; i < 8; i++) ctxs[i] = 100 + i;
  for (int i = 0; i < N; i++) r_node[i] = -1;
  n_ref = 0, got = 0;
  LIB;
  swiftnav_subsystem_status_report_callback_reset();
  SPEC;
}
static void sequence(int len) {
  start();
  for (int i = 0; i < len; i++) step();
  send();
}
void h_one(void) { sequence(1); }
void h_two(void) { sequence(2); }
void h_three(void) { sequence(3); }
/* every list over the receivers, whatever the receivers that are not in it still hold, followed by any operations: by induction any history */
static void state(int stale, int ops) {
  static const signed char order[16][3] = {{-1, -1, -1}, {0, -1, -1}, {1, -1, -1}, {2, -1, -1}, {0, 1, -1}, {1, 0, -1}, {0, 2, -1}, {2, 0, -1},
                                          {1, 2, -1}, {2, 1, -1}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int q = 0; q < 16; q++) {
    SPEC;
    spec_begin();
    for (int k = 0; k < N; k++) node[k].callback = fa, node[k].context = &ctxs[0], node[k].next = stale < 0 ? 0 : &node[(k + stale) % N];
    start();
    for (int i = 0; i < N; i++)
      if (order[q][i] >= 0) {
        LIB;
        swiftnav_subsystem_status_report_callback_register(&node[order[q][i]], i & 1 ? fb : fa, &ctxs[i]);
        SPEC;
        r_node[i] = order[q][i], r_fn[i] = i & 1 ? 2 : 1, r_ctx[i] = 100 + i, n_ref = i + 1;
      }
    for (int i = 0; i < ops; i++) step();
    send();
    spec_end();
  }
}
void h_step(void) { state(-1, 1), state(0, 1), state(1, 1), state(2, 1); }
void h_steps(void) { state(1, 2); }
