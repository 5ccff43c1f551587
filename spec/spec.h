/* Primitives interpreted by /verif/engine (never executed). */
#ifndef SPEC_H
#define SPEC_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <math.h>
#ifdef __cplusplus
extern "C" {
#endif
void spec_side(int s); /* 0: the library is being analysed, 1: the specification */
void spec_assume(int c);
void spec_check(int c, const char *msg);
void spec_cover(int c, const char *msg);
void spec_eq_u(uint64_t lib, uint64_t spec, const char *msg);
void spec_eq_i(int64_t lib, int64_t spec, const char *msg);
void spec_eq_d(double lib, double spec, const char *msg);
void spec_eq_p(const void *lib, const void *spec, const char *msg);
uint64_t spec_any_u(int nbits, const char *name);
int64_t spec_any_i(int nbits, const char *name);
double spec_any_d(const char *name);
float spec_any_f(const char *name);
void spec_fill(void *p, size_t n, const char *name);
void spec_same_bytes(const void *a, const void *b, size_t n, const char *msg);
void spec_nan_aware(int on);
void spec_ub_off(int on);
/* an independent sub-problem: assumptions and fresh values are local to it */
void spec_begin(void);
void spec_end(void);
void spec_note(const char *m, ...);
void spec_pc(void);
/* the library must not store to these bytes */
void spec_readonly(const void *p, size_t n, const char *what);
/* once the library has stored to the guard bytes it must not touch the region any more */
void spec_order(const void *region, size_t n, const void *guard, size_t gn, const char *what);
void spec_nowatch(void);
/* before every library load of these bytes the other side may take a step: fn */
void spec_volatile(const void *p, size_t n, void (*fn)(void));
void spec_novolatile(void);
/* name a value: whatever evaluates to the same normal form is that name from now on (keeps long chains small) */
/* the two values are the same expression */
int spec_is(double a, double b);
double spec_cut(double v, const char *name);
#ifdef __cplusplus
}
#endif
#define LIB spec_side(0)
#define SPEC spec_side(1)
#define EQU(a, b, f) spec_eq_u((uint64_t)(a).f, (uint64_t)(b).f, #f)
#define EQI(a, b, f) spec_eq_i((int64_t)(a).f, (int64_t)(b).f, #f)
#define EQD(a, b, f) spec_eq_d((double)(a).f, (double)(b).f, #f)
#endif
