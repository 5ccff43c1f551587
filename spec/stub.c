/* The textual rendering of a signal is only used as a log argument inside the decoders; the rendering itself is decided
   by its own property.  The summary keeps the obligation that the buffer really has n bytes. */
#include <swiftnav/signal.h>
#include "spec.h"
int stub_sid_to_string(char *s, int n, const gnss_signal_t sid) {
  (void)sid;
  if (n > 0) {
    s[0] = (char)spec_any_u(8, "text");
    s[n - 1] = 0;
  }
  return (int)spec_any_i(32, "text_len");
}
