/* Log hooks and the shortened path of a message's origin. */
#include <swiftnav/logging.h>
#include "spec.h"

static int calls, level, line, other;
static const char *text, *file;
static void mine(int l, const char *m, ...) { SPEC; calls++, level = l, text = m; LIB; }
static void mine_detailed(int l, const char *f, const int n, const char *m, ...) { SPEC; calls += 100, level = l, file = f, line = n, text = m; LIB; }
static void another(int l, const char *m, ...) { SPEC; other++; LIB; }
static void another_detailed(int l, const char *f, const int n, const char *m, ...) { SPEC; other++; LIB; }

#define ONE(macro, lv, when)                                  \
  do {                                                        \
    calls = 0;                                                \
    LIB;                                                      \
    macro("text %d", 5);                                      \
    SPEC;                                                     \
    spec_eq_i(calls, when, "messages handed to the hook");    \
    if (calls) spec_eq_i(level, lv, "level of the message");  \
    if (calls) spec_check(text[0] == 't' && text[5] == '%', "text of the message"); \
  } while (0)

void h_hooks(void) {
  SPEC;
  other = 0;
  LIB;
  logging_set_implementation(another, another_detailed);
  logging_set_implementation(mine, mine_detailed);
  SPEC;
  spec_check(log_ == mine && detailed_log_ == mine_detailed, "the hooks set last are used");
  ONE(log_emerg, 0, 1);
  ONE(log_alert, 1, 1);
  ONE(log_crit, 2, 1);
  ONE(log_error, 3, 1);
  ONE(log_warn, 4, 1);
  ONE(log_notice, 5, 1);
  ONE(log_info, 6, 1);
  ONE(detailed_log_emerg, 0, 100);
  ONE(detailed_log_error, 3, 100);
  ONE(detailed_log_warn, 4, 100);
  ONE(detailed_log_info, 6, 100);
  spec_check(file[0] == 'l' && file[6] == 'g' && file[7] == '.' && file[8] == 'c' && !file[9], "base name of the source file");
  spec_eq_i(other, 0, "replaced hooks are not called");
  LIB;
  logging_set_implementation(0, 0);
  SPEC;
  spec_check(log_ && detailed_log_ && log_ != mine && detailed_log_ != mine_detailed, "the defaults are back");
  ONE(log_error, 3, 0);
}

#define L 6
/* every arrangement of slashes among the characters of a path, the other characters being arbitrary */
static void path(int n, unsigned slashes) {
  SPEC;
  char p[L + 2], q[L + 2];
  for (int i = 0; i < n; i++) {
    p[i] = slashes >> i & 1 ? '/' : (char)spec_any_u(8, "char");
    if (!(slashes >> i & 1)) spec_assume(p[i] != '/' && p[i] != 0);
  }
  p[n] = 0;
  memcpy(q, p, sizeof p);
  int end = n, begin;
  while (end > 0 && slashes >> (end - 1) & 1) end--;
  for (begin = end; begin > 0 && !(slashes >> (begin - 1) & 1);) begin--;
  LIB;
  const char *r = truncate_path_(p);
  SPEC;
  if (n && !end) {
    spec_check(r[0] == '/' && r[1] == 0, "root directory");
  } else {
    for (int i = begin; i < end; i++) spec_eq_u((u8)r[i - begin], (u8)q[i], "character of the base name");
    spec_eq_u((u8)r[end - begin], 0, "end of the base name");
  }
}
void h_path(void) {
  SPEC;
  for (int n = 0; n <= L; n++)
    for (unsigned k = 0; k < 1u << n; k++) {
      spec_begin();
      path(n, k);
      spec_end();
    }
}
