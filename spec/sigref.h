/* reference table of signals */
#ifndef SIGREF_H
#define SIGREF_H
#include "spec.h"
enum { GPS = 0, SBAS, GLO, BDS, QZS, GAL, INV = -1 };
typedef struct {
  int cons;
  double freq;
  const char *str;
  u32 chips;
  double rate;
  u32 ms;
  double phase;
  int direct, decoder;
  double doppler;
} ref_t;
__attribute__((unused)) static const ref_t ref[64] = {
#include "signal_ref.inc"
};
__attribute__((unused)) static const int first_prn[6] = {1, 120, 1, 1, 193, 1};
__attribute__((unused)) static const int n_prn[6] = {32, 19, 28, 64, 10, 36};
__attribute__((unused)) static const char *cons_name[6] = {"GPS", "SBAS", "GLO", "BDS", "QZS", "GAL"};
__attribute__((unused)) static const char cons_char[6] = {'G', 'S', 'R', 'C', 'J', 'E'};

#endif
