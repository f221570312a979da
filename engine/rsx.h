// API the harness uses; implemented symbolically by rsx.cpp and concretely by plain.c.
#ifndef RSX_H
#define RSX_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int32_t rsx_sym_i32(const char *name, int32_t lo, int32_t hi);
uint64_t rsx_sym_bits(const char *name, int kind); /* kind 0: any double (canonical NaN); 1: any 64-bit word */
uint16_t rsx_sym_u16(const char *name, int n, const uint16_t *ranges); /* n [lo,hi] pairs */
void rsx_assume(int cond);
void rsx_check(int cond, const char *msg);
void rsx_check_known(int cond, const char *id);
int32_t rsx_conc_i32(int32_t v);
double rsx_conc_f64(double v);
uint16_t rsx_conc_u16(uint16_t v);
void rsx_fail(const char *msg);
void rsx_stop(void);                       /* end this path silently (assumption violated) */
void rsx_gc_arm(int maxpoint, void (*fn)(void)); /* symbolic GC point among the next allocations */
void rsx_concrete_region(void *p, size_t n);
void rsx_note(const char *msg);
int rsx_is_symbolic_run(void);
int rsx_main(int argc, char **argv, int nscn, const char **names, const int *timeouts, void (*run)(int));
#ifdef __cplusplus
}
#endif
#endif
