// Concrete implementation of the scenario API: replays one input vector on the
// uninstrumented library. Exit status 0: scenario passes, 10: violation.
#include "rsx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
static uint64_t in[4096]; static int nin, cur;
static void (*gcfn)(void); static int gcn, gcmax, gcval;
static int verbose;
static void pt(void) { if (!gcfn || gcn >= gcmax) return; gcn++; if (gcval == gcn) { void (*f)(void) = gcfn; gcfn = 0; f(); } }
void __real_rjs_gc_add(void *rt, void *thing, const void *ops);
void __wrap_rjs_gc_add(void *rt, void *thing, const void *ops) { pt(); __real_rjs_gc_add(rt, thing, ops); }
static int next(uint64_t *v) { if (cur < nin) { *v = in[cur++]; return 1; } cur++; return 0; }
int32_t rsx_sym_i32(const char *name, int32_t lo, int32_t hi) {
    uint64_t v;
    if (lo == hi) return lo;
    if (next(&v)) { int32_t x = (int32_t)(uint32_t)v; if (x >= lo && x <= hi) return x; }
    if (lo <= 0 && hi >= 0) return 0;
    return lo >= 0 ? lo : lo;
}
uint64_t rsx_sym_bits(const char *name, int kind) { uint64_t v; if (next(&v)) return v; return 0; }
uint16_t rsx_sym_u16(const char *name, int n, const uint16_t *r) {
    uint64_t v; int i; uint16_t m = 0xffff;
    int one = 1;
    for (i = 0; i < n; i++) if (r[2 * i] != r[2 * i + 1] || r[2 * i] != r[0]) one = 0;
    if (one) return r[0];
    if (next(&v)) { for (i = 0; i < n; i++) if (v >= r[2 * i] && v <= r[2 * i + 1]) return (uint16_t)v; }
    for (i = 0; i < n; i++) { if (r[2 * i] == 0) return 0; if (r[2 * i] < m) m = r[2 * i]; }
    return m;
}
static void viol(const char *m) { printf("VIOLATED %s\n", m); fflush(stdout); _exit(10); }
void rsx_assume(int c) { if (!c) rsx_stop(); }
void rsx_stop(void) { printf("ASSUME\n"); fflush(stdout); _exit(0); }
void rsx_check(int c, const char *m) { if (!c) viol(m); }
void rsx_check_known(int c, const char *id) { if (!c) { printf("KNOWN %s\n", id); fflush(stdout); } }
int32_t rsx_conc_i32(int32_t v) { return v; }
double rsx_conc_f64(double v) { return v; }
uint16_t rsx_conc_u16(uint16_t v) { return v; }
void rsx_fail(const char *m) { viol(m); }
void rsx_note(const char *m) { printf("NOTE %s\n", m); }
void rsx_concrete_region(void *p, size_t n) { }
int rsx_is_symbolic_run(void) { return 0; }
void rsx_gc_arm(int maxp, void (*fn)(void)) { gcval = rsx_sym_i32("gcpoint", 0, maxp); gcmax = maxp; gcn = 0; gcfn = fn; }
static void onalarm(int s) { printf("VIOLATED timeout\n"); fflush(stdout); _exit(11); }
int rsx_main(int argc, char **argv, int nscn, const char **names, const int *timeouts, void (*run)(int)) {
    const char *only = 0; int i;
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--only")) only = argv[++i];
        else if (!strcmp(argv[i], "--inputs")) {
            char *p = argv[++i];
            while (*p && nin < 4096) { char *e; in[nin++] = strtoull(p, &e, 0); if (*e == ',') e++; if (e == p) break; p = e; }
        } else if (!strcmp(argv[i], "--list")) { for (int k = 0; k < nscn; k++) printf("%s\n", names[k]); return 0; }
    }
    for (i = 0; i < nscn; i++)
        if (only && !strcmp(only, names[i])) {
            struct itimerval it = {{0, 0}, {20, 0}};
            signal(SIGPROF, onalarm); setitimer(ITIMER_PROF, &it, 0);
            run(i);
            printf("OK\n");
            return 0;
        }
    fprintf(stderr, "no such scenario\n");
    return 3;
}
