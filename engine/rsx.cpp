// Concolic runtime: shadow memory, path events, flip solving with Z3, and the
// coordinator that explores all paths of a scenario from one process snapshot.
#include "expr.h"
#include "rsx.h"
#include <ctype.h>
#include "rsxabi.h"
#include <cmath>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <cstdarg>
#include <z3.h>
#include <unicode/uchar.h>
#include <unicode/uscript.h>
#include <unicode/ustring.h>
#include <unicode/unorm2.h>
#include <unicode/ucnv.h>

extern "C" {
E __rsx_args[RSX_MAXARGS];
E __rsx_ret;
u8 __rsx_bloom[RSX_BLOOM];
u8 __rsx_active;
}
#define ARGS __rsx_args
#define RET __rsx_ret

static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool g_trace, g_oplog;
static u64 mixh(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }

// ------------------------------------------------------------------ shared state
struct Stats {
    u64 paths, events, flips, sat, unsat, unknown, cached, cachedsat, trivial, drops, mismatches, stale, concretized, truncated, diverged, silent, checks, solver_us, run_us, symops, z3calls, maxevents, jobs_lost, solve_cut, plainpaths, nevchecks, searched;
};
struct Shm {
    Stats st[512];
    char dropnames[64][48]; u32 dropcnt[64];
    char known[64][64];
    u64 fnhits;
};
static Shm *shm;
// functions in which symbolic operations were evaluated: one byte per 16 bytes of code
extern "C" char __executable_start, etext;
static u8 *covMap; static u64 covLo, covN;
#define MARK() do { u64 o_ = (u64)__builtin_return_address(0) - covLo; if (o_ < covN) covMap[o_ >> 4] = 1; } while (0)
static int curScn;
#define ST (shm->st[curScn])
#define INC(f) __atomic_fetch_add(&ST.f, 1, __ATOMIC_RELAXED)
#define ADDS(f, v) __atomic_fetch_add(&ST.f, (u64)(v), __ATOMIC_RELAXED)

// solver result cache shared between all path processes
struct CEnt { u64 h1, h2; u32 st, off; };
#define CACHE_N (1u << 20)
static CEnt *cache;
static u32 *cmodels; static u64 *cmodTop;
#define CMOD_SZ (64u << 20)

// ------------------------------------------------------------------ path state
enum EvKind : u8 { EV_BR, EV_CONC, EV_INB, EV_CHECK, EV_ASSUME };
struct Ev { E cond; EvKind kind; u32 site; u64 hashBefore, val; E base, goal; };
static std::vector<E> *exclConds; static u64 exclCount;
static std::vector<Ev> *evs;
static std::unordered_set<E> *evset;
static u64 pathHash;
static std::vector<u64> *jobIn;   // inputs of this job
static u32 jobPrefix; static u64 jobHash;
static std::vector<u64> *jobExcl;  // values already tried for the pinned expression at event jobPrefix
static u32 maxEvents = 20000;
static const char *g_divlog, *g_pathlog; static std::vector<u64> *jobPar;

enum { PS_OK = 1, PS_FAIL, PS_TIMEOUT, PS_RUNNING, PS_STOP, PS_SOLVING };
struct Slot {
    volatile int status; int nviol; char msg[512];
    u32 njobs; u32 used;
    int nvars; char vnames[256][24]; u64 vvals[256]; u8 vw[256]; u8 vs[256];
    char log[2048]; int loglen;
    u8 data[];
};
#define SLOT_SZ (8u << 20)
static Slot *slot;

static bool g_one;
[[noreturn]] static void childExit();
[[noreturn]] static void childExit() { if (g_one) { fprintf(stderr, "path end: status %d %s\n%.*s\n", slot->status, slot->msg, slot->loglen, slot->log); } _exit(0); }
static void publishInputs() {
    slot->nvars = g_nvars < 256 ? g_nvars : 256;
    for (int i = 0; i < slot->nvars; i++) {
        memcpy(slot->vnames[i], g_vars[i].name, 24);
        slot->vvals[i] = g_vars[i].val; slot->vw[i] = g_vars[i].w; slot->vs[i] = g_vars[i].isf ? 2 : g_vars[i].sgn;
    }
}
static void finishPath();
[[noreturn]] static void violation(const char *msg) {
    __rsx_active = 0;
    snprintf(slot->msg, sizeof slot->msg, "%s", msg);
    publishInputs();
    slot->status = PS_FAIL;
    childExit();
}
static void noteDrop(const char *n) {
    INC(drops);
    for (int i = 0; i < 64; i++) {
        if (!shm->dropnames[i][0]) { strncpy(shm->dropnames[i], n, 47); }
        if (!strncmp(shm->dropnames[i], n, 47)) { __atomic_fetch_add(&shm->dropcnt[i], 1, __ATOMIC_RELAXED); return; }
    }
}
static void addEvent(E cond, EvKind kind, u32 site) {
    // recorded with the truth value it has on this path
    if (cond->k == CONST) return;
    E base = cond; bool pol = base->cv & 1;
    E neg = mkNot(base);   // built now: later refinements must not leak into it
    if (neg->k == CONST) return;
    if (!pol) cond = neg;
    if (!evset->insert(cond).second) return;
    if (evs->size() >= maxEvents) { if (evs->size() == maxEvents) INC(truncated); evs->push_back({cond, EV_ASSUME, site, pathHash, 0, base, pol ? neg : base}); return; }
    if (g_trace) fprintf(stderr, "ev %zu k%d site %u %s\n", evs->size(), kind, site, expr_str(cond, 6));
    evs->push_back({cond, kind, site, pathHash, 0, base, pol ? neg : base});
    pathHash = mixh(pathHash, base->h * 2 + pol);
    if (evs->size() == jobPrefix && pathHash != jobHash) {
        INC(diverged);
        if (g_divlog) { FILE *f = fopen(g_divlog, "a"); fprintf(f, "scn %d prefix %u parent ", curScn, jobPrefix); for (u64 v : *jobPar) fprintf(f, "%llu,", (long long)v); fprintf(f, " child "); for (u64 v : *jobIn) fprintf(f, "%llu,", (long long)v); fprintf(f, "\n"); fclose(f); }
    }
    assumeRange(cond);
}
static bool decideK(E cond, EvKind k, u32 site = 0) {
    bool c = cond->cv & 1;
    if (cond->k == CONST) return c;
    addEvent(cond, k, site);
    return c;
}
static bool decideBr(E cond) { return decideK(cond, EV_BR); }
static u64 concretize(E e) {  // pins e to its concrete value; every other value is reached by flips
    if (e->isC() || e->pin) return e->cv;
    INC(concretized);
    if (g_trace) fprintf(stderr, "conc at %p: %s\n", __builtin_return_address(0), expr_str(e, 5));
    E b = e->fp() ? mkToBits(e) : e;
    if (b->isC()) return b->cv;
    if (b->w == 1) { addEvent(b, EV_BR, 0); return b->cv; }
    struct Pin { E e; ~Pin() { expr_pin(e); } } pin{b};
    while ((b->k == ZEXT || b->k == SEXT || (b->k == CONCAT && b->b->isC()) || ((b->k == ADD || b->k == XOR) && b->b->isC())) && !b->a->isC()) {
        b = b->a;
        if (b->w == 1) { addEvent(b, EV_BR, 0); return pin.e->cv; }
    }
    RSet r = *rangeOf(b);
    if (rs_count(&r) <= 4096) {  // balanced splits of the remaining range
        u64 v = b->cv;
        for (;;) {
            u64 n = rs_count(&r);
            if (n <= 1) break;
            u64 half = (n + 1) / 2, mid = 0;
            for (int i = 0; i < r.n; i++) { u64 c = r.hi[i] - r.lo[i] + 1; if (half <= c) { mid = r.lo[i] + half - 1; break; } half -= c; }
            E q = mkUle(b, mkC(b->w, mid));
            bool le = v <= mid;
            addEvent(q, EV_BR, 0);
            RSet t; t.n = 0;
            for (int i = 0; i < r.n; i++) {
                u64 l = r.lo[i], h = r.hi[i];
                if (le) { if (l > mid) continue; if (h > mid) h = mid; } else { if (h <= mid) continue; if (l <= mid) l = mid + 1; }
                t.lo[t.n] = l; t.hi[t.n] = h; t.n++;
            }
            r = t;
        }
        expr_pin(b);
        return pin.e->cv;
    }
    std::vector<E> ex;
    if (evs->size() == jobPrefix) for (u64 x : *jobExcl) ex.push_back(mkNot(mkEq(b, mkC(b->w, x))));
    size_t k = evs->size();
    addEvent(mkEq(b, mkC(b->w, b->cv)), EV_CONC, 0);
    if (evs->size() == k + 1) { (*evs)[k].val = b->cv; if (k == jobPrefix) *exclConds = ex; }
    expr_pin(b);
    return pin.e->cv;
}

// ------------------------------------------------------------------ objects and heap
#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (4ull << 30)
static u8 *arenaTop = (u8 *)ARENA_BASE, *arenaEnd;
static u8 *validMap;   // per 8 bytes: number of valid bytes (0: none), in arena
struct Obj { u64 a, n; };
static std::vector<Obj> *heapObjs;
static std::vector<Obj> *globObjs; static bool globSorted;
static bool g_memcheck;
static void bloomPage(u64 addr) { u64 p = addr >> 12; __rsx_bloom[p & (RSX_BLOOM - 1)] = 1; __rsx_bloom[(p - 1) & (RSX_BLOOM - 1)] = 1; }
static void arenaInit() {
    void *p = mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED) { perror("arena"); abort(); }
    validMap = (u8 *)mmap(0, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arenaEnd = (u8 *)(ARENA_BASE + ARENA_SIZE);
    heapObjs = new std::vector<Obj>;
    if (!globObjs) globObjs = new std::vector<Obj>;
}
static inline bool inArena(u64 a) { return a - ARENA_BASE < ARENA_SIZE; }
static void setValid(u64 a, u64 n, bool v) {
    u64 g = (a - ARENA_BASE) >> 3, k = n >> 3;
    memset(validMap + g, v ? 8 : 0, k);
    if (n & 7) validMap[g + k] = v ? n & 7 : 0;
}
static void *hmalloc(u64 n) {
    if (!validMap) arenaInit();
    if (!n) n = 1;
    u64 tot = ((n + 15) & ~15ull) + 16;
    if (arenaTop + tot > arenaEnd) { errno = ENOMEM; return 0; }
    u8 *p = arenaTop + 16;
    arenaTop += tot;
    *(u64 *)(p - 16) = n; *(u64 *)(p - 8) = 0xA110C;
    heapObjs->push_back({(u64)p, n});
    setValid((u64)p, n, true);
    if (__rsx_active) memset(p, 0xA5, n < 65536 ? n : 65536);
    return p;
}
static void clearCells(u64 a, u64 n);
static void hfree(void *p) {
    if (!p) return;
    if (!inArena((u64)p)) { return; }
    u8 *q = (u8 *)p;
    if (*(u64 *)(q - 8) != 0xA110C) violation("double or invalid free");
    u64 n = *(u64 *)(q - 16);
    *(u64 *)(q - 8) = 0xF4EED;
    setValid((u64)p, n, false);
    if (__rsx_active) {
        clearCells((u64)p, n);
        memset(p, 0xDD, n < 65536 ? n : 65536);
        for (u64 a = (u64)p; a < (u64)p + n; a += 4096) bloomPage(a);
        bloomPage((u64)p + n - 1);
    }
}
static bool findObj(u64 a, Obj *o) {
    std::vector<Obj> *v = inArena(a) ? heapObjs : globObjs;
    if (!v) return false;
    if (v == globObjs && !globSorted) { std::sort(v->begin(), v->end(), [](const Obj &x, const Obj &y) { return x.a < y.a; }); globSorted = true; }
    size_t l = 0, h = v->size();
    while (l < h) { size_t m = (l + h) / 2; if ((*v)[m].a <= a) l = m + 1; else h = m; }
    if (!l) return false;
    Obj x = (*v)[l - 1];
    if (a >= x.a + x.n) return false;
    *o = x;
    return true;
}
extern "C" void __rsx_reg_global(void *p, u64 n) { if (!globObjs) globObjs = new std::vector<Obj>; globObjs->push_back({(u64)p, n}); }
static void checkValid(u64 a, unsigned n, bool wr) {
    if (!inArena(a)) return;
    u64 g = (a - ARENA_BASE) >> 3; unsigned o = a & 7;
    bool ok;
    if (o + n <= 8) ok = validMap[g] >= o + n;
    else ok = validMap[g] == 8 && validMap[g + 1] >= (o + n - 8);
    if (!ok) {
        char b[128]; const char *w = "outside any object";
        u64 l = 0; size_t h = heapObjs->size(), x = 0;
        while (x < h) { size_t m = (x + h) / 2; if ((*heapObjs)[m].a <= a) x = m + 1; else h = m; }
        if (x) { Obj ob = (*heapObjs)[x - 1]; if (a < ob.a + ob.n) w = "in a freed block"; else w = "past the end of a block"; }
        (void)l;
        snprintf(b, sizeof b, "memory error: %s of %u bytes %s", wr ? "write" : "read", n, w);
        violation(b);
    }
}

// ------------------------------------------------------------------ shadow memory
typedef u64 Cell;  // expr pointer | byte index << 56
struct Page { u64 no; Cell c[4096]; };
#define PT_N 65536
static Page **ptab;
static Page *getPage(u64 no, bool create) {
    u64 i = (no * 0x9e3779b97f4a7c15ull) >> 48;
    for (;; i = (i + 1) & (PT_N - 1)) {
        Page *p = ptab[i];
        if (!p) {
            if (!create) return 0;
            p = (Page *)arena_alloc(sizeof(Page));
            p->no = no;
            ptab[i] = p;
            __rsx_bloom[no & (RSX_BLOOM - 1)] = 1;
            __rsx_bloom[(no - 1) & (RSX_BLOOM - 1)] = 1;
            return p;
        }
        if (p->no == no) return p;
    }
}
static inline Cell getCell(u64 a) { Page *p = getPage(a >> 12, false); return p ? p->c[a & 4095] : 0; }
static inline E cellE(Cell c) { return (E)(c & 0xffffffffffffull); }
static inline unsigned cellI(Cell c) { return c >> 56; }
static void clearCells(u64 a, u64 n) {
    while (n) {
        u64 k = 4096 - (a & 4095); if (k > n) k = n;
        if (__rsx_bloom[(a >> 12) & (RSX_BLOOM - 1)]) { Page *p = getPage(a >> 12, false); if (p) memset(&p->c[a & 4095], 0, k * sizeof(Cell)); }
        a += k; n -= k;
    }
}
// bookkeeping words whose symbolic value is deliberately not tracked (allocation statistics)
static u64 crLo, crHi;
static void putCells(u64 a, E e, unsigned n) {
    if (a >= crLo && a < crHi) { clearCells(a, n); return; }
    for (unsigned i = 0; i < n; i++) { Page *p = getPage((a + i) >> 12, true); p->c[(a + i) & 4095] = (u64)e | (u64)i << 56; }
}
static E cellByte(Cell c) { E e = cellE(c); unsigned i = cellI(c); if (e->w < 8 * (i + 1)) return mkZext(mkExtract(e, 8 * i, e->w - 8 * i), 8); return mkExtract(e, 8 * i, 8); }
// value of n bytes at a (bit-vector), null if fully concrete
static E loadCells(u64 a, unsigned n) {
    Cell c[16]; bool any = false;
    for (unsigned i = 0; i < n; i++) {
        c[i] = getCell(a + i);
        if (c[i]) {
            E e = cellE(c[i]);
            if ((u8)(e->cv >> (8 * cellI(c[i]))) != *(u8 *)(a + i)) {  // overwritten behind our back
                INC(stale); c[i] = 0; Page *p = getPage((a + i) >> 12, true); p->c[(a + i) & 4095] = 0;
            } else any = true;
        }
    }
    if (!any) return 0;
    if (c[0] && cellI(c[0]) == 0 && cellE(c[0])->w == 8 * n) {
        bool all = true;
        for (unsigned i = 1; i < n; i++) if (c[i] != ((c[0]) | (u64)i << 56)) { all = false; break; }
        if (all) return cellE(c[0]);
    }
    E r = 0;
    for (unsigned i = 0; i < n; i++) {
        E b = c[i] ? cellByte(c[i]) : mkC(8, *(u8 *)(a + i));
        r = r ? mkConcat(b, r) : b;
    }
    return r->k == CONST ? 0 : r;
}
static inline E val(E s, unsigned tc, u64 conc) {
    unsigned w = tc & 0x7f;
    if (s) {
        if (s->cv != (conc & M(w))) {
            bool nan = (tc & RSX_FP) && s->fp();
            if (nan && w == 64) { double x, y; memcpy(&x, &s->cv, 8); memcpy(&y, &conc, 8); nan = x != x && y != y; }
            else if (nan) { float x, y; u32 p = (u32)s->cv, q = (u32)conc; memcpy(&x, &p, 4); memcpy(&y, &q, 4); nan = x != x && y != y; }
            if (!nan) {
                INC(mismatches);
                if (g_trace) fprintf(stderr, "MISMATCH %s cv %llx conc %llx\n", expr_str(s, 4), (long long)s->cv, (long long)conc);
            }
            s = 0;
        } else if (s->w != w) { INC(mismatches); if (g_trace) fprintf(stderr, "WIDTH %s %d vs %d\n", expr_str(s, 4), s->w, w); s = 0; }
    }
    if (!s) return tc & RSX_FP ? mkFC(w, conc) : mkC(w, conc);
    return s;
}
static inline E out(E e) {
    if (g_oplog) fprintf(stderr, "op %p %s\n", __builtin_return_address(0), e ? expr_str(e, 5) : "0");
    return e && e->isC() ? 0 : e;
}

static std::unordered_map<E, u64> *prov;

static E castTo(E bits, unsigned tc) {  // loaded bytes to SSA type
    unsigned w = tc & 0x7f;
    if (bits->w > w) bits = mkExtract(bits, 0, w);
    if (tc & RSX_FP) return mkFromBits(bits);
    return bits;
}
static bool looksPointer(u64 v) { u64 p = v & 0xffffffffffffull; return inArena(p) || (v > 0x10000 && v < (1ull << 47) && v > 0x400000000000ull); }
static E symLoad(u64 a, unsigned n, E A) {
    u64 base = a;
    auto it = prov->find(A);
    if (it != prov->end()) base = it->second;
    Obj o;
    if (!findObj(base, &o)) { concretize(A); return 0; }
    if (a < o.a || a + n > o.a + o.n) { char b[128]; snprintf(b, sizeof b, "memory error: read of %u bytes outside its object (%lld, size %llu)", n, (long long)(a - o.a), (long long)o.n); violation(b); }
    E off = mkBin(SUB, A, mkC(64, o.a));
    decideK(mkUle(off, mkC(64, o.n - n)), EV_INB);
    RSet r = *rangeOf(off);
    if (rs_max(&r) > o.n - n) { RSet q; q.n = 0; for (int i = 0; i < r.n; i++) if (r.lo[i] <= o.n - n) { q.lo[q.n] = r.lo[i]; q.hi[q.n] = r.hi[i] < o.n - n ? r.hi[i] : o.n - n; q.n++; } r = q; }
    unsigned tz = __builtin_ctzll(~off->kz | 1ull << 20); u64 step = 1;
    while (step < n && tz) { step <<= 1; tz--; }
    if (step < n) {  // stride from the additive constant
        E v = off; u64 add = 0;
        if (off->k == ADD && off->b->k == CONST) { v = off->a; add = off->b->x; }
        unsigned t2 = __builtin_ctzll(~v->kz | 1ull << 20); step = 1;
        while (step < n && t2) { step <<= 1; t2--; }
        (void)add;
    }
    u64 phase = (a - o.a) % step;
    std::vector<std::pair<u64, E>> runs;  // start offset, value
    unsigned cnt = 0, nsym = 0; bool ptrs = false, bad = step < n;
    for (int i = 0; i < r.n && !bad; i++) {
        u64 s = r.lo[i]; s += (phase + step - s % step) % step;
        for (u64 f = s; f <= r.hi[i]; f += step) {
            if (++cnt > 70000) { bad = true; break; }
            E e = loadCells(o.a + f, n);
            if (e) { if (++nsym > 24) { bad = true; break; } }
            else { u64 v = 0; memcpy(&v, (void *)(o.a + f), n); e = mkC(8 * n, v); if (n == 8 && looksPointer(v)) ptrs = true; }
            if (runs.empty() || runs.back().second != e) { runs.push_back({f, e}); if (runs.size() > 80) { bad = true; break; } }
        }
    }
    if (bad || (ptrs && runs.size() > 1)) { concretize(A); return 0; }
    if (runs.empty()) return 0;
    E res = runs.back().second;
    for (size_t i = runs.size() - 1; i-- > 0;) res = mkIte(mkUlt(off, mkC(64, runs[i + 1].first)), runs[i].second, res);
    return res;
}
extern "C" {
void __rsx_clear(void *p, u64 n) { if (__rsx_active) clearCells((u64)p, n); }
E __rsx_load(void *p, u32 code, E sp) {
    if (!__rsx_active) return 0;
    unsigned n = code & 0xff, tc = (code >> 8) & 0xff; u64 a = (u64)p;
    E r = 0;
    if (sp && sp->cv != a) { INC(mismatches); sp = 0; }
    checkValid(a, n, false);
    if (sp && !sp->isC()) { r = symLoad(a, n, sp); if (!r) r = loadCells(a, n); }
    else r = loadCells(a, n);
    if (!r) return 0;
    u64 v = 0; memcpy(&v, p, n);
    if (r->cv != (v & M(8 * n))) { INC(stale); return 0; }
    INC(symops);
    return out(castTo(r, tc));
}
void __rsx_store(void *p, u32 code, E v, E sp) {
    if (!__rsx_active) return;
    unsigned n = code & 0xff; u64 a = (u64)p;
    checkValid(a, n, true);
    if (sp && sp->cv == a && !sp->isC()) {
        u64 base = a; auto it = prov->find(sp); if (it != prov->end()) base = it->second;
        Obj o;
        if (findObj(base, &o)) {
            if (a < o.a || a + n > o.a + o.n) { char b[128]; snprintf(b, sizeof b, "memory error: write of %u bytes outside its object (%lld, size %llu)", n, (long long)(a - o.a), (long long)o.n); violation(b); }
            decideK(mkUle(mkBin(SUB, sp, mkC(64, o.a)), mkC(64, o.n - n)), EV_INB);
        }
        concretize(sp);
    }
    if (!v || v->isC()) { clearCells(a, n); return; }
    E b = v->fp() ? mkToBits(v) : v;
    if (b->isC()) { clearCells(a, n); return; }
    if (b->w < 8 * n) b = mkZext(b, 8 * n);
    putCells(a, b, n);
}
static Kind binKind(unsigned op) {
    switch (op) {
    case RSX_ADD: return ADD; case RSX_SUB: return SUB; case RSX_MUL: return MUL; case RSX_UDIV: return UDIV; case RSX_SDIV: return SDIV;
    case RSX_UREM: return UREM; case RSX_SREM: return SREM; case RSX_AND: return AND; case RSX_OR: return OR; case RSX_XOR: return XOR;
    case RSX_SHL: return SHL; case RSX_LSHR: return LSHR; case RSX_ASHR: return ASHR;
    case RSX_FADD: return FADD; case RSX_FSUB: return FSUB; case RSX_FMUL: return FMUL; case RSX_FDIV: return FDIV;
    }
    return CONST;
}
E __rsx_bin(u32 code, E a, E b, u64 ca, u64 cb) {
    MARK();
    unsigned op = code & 0xff, tc = (code >> 8) & 0xff;
    a = val(a, tc, ca); b = val(b, tc, cb);
    INC(symops);
    if (op == RSX_FREM) return out(mkFMod(a, b));
    Kind k = binKind(op);
    if (tc & RSX_FP) return out(mkFBin(k, a, b));
    if (k == SHL || k == LSHR || k == ASHR) {  // x86 masks the amount; LLVM says poison: only in-range amounts are meaningful
        if (!b->isC() && rs_max(rangeOf(b)) >= (tc & 0x7f)) b = mkBin(AND, b, mkC(b->w, (tc & 0x7f) >= 32 ? (tc & 0x7f) - 1 : 31));
        else if (b->isC() && b->x >= (tc & 0x7f)) return 0;
    }
    if ((k == UDIV || k == SDIV || k == UREM || k == SREM) && !b->isC()) decideBr(mkEq(b, mkC(b->w, 0)));
    return out(mkBin(k, a, b));
}
E __rsx_cmp(u32 code, E a, E b, u64 ca, u64 cb) {
    MARK();
    unsigned p = code & 0xff, tc = (code >> 8) & 0xff;
    a = val(a, tc, ca); b = val(b, tc, cb);
    if (tc & RSX_FP) {
        switch (p) {  // llvm FCmp predicates
        case 1: return out(mkFCmp(FEQ, a, b));
        case 2: return out(mkFCmp(FLT, b, a));
        case 3: return out(mkFCmp(FLE, b, a));
        case 4: return out(mkFCmp(FLT, a, b));
        case 5: return out(mkFCmp(FLE, a, b));
        case 6: return out(mkAnd(mkNot(mkOr(mkFNan(a), mkFNan(b))), mkNot(mkFCmp(FEQ, a, b))));
        case 7: return out(mkNot(mkOr(mkFNan(a), mkFNan(b))));
        case 8: return out(mkOr(mkFNan(a), mkFNan(b)));
        case 9: return out(mkOr(mkOr(mkFNan(a), mkFNan(b)), mkFCmp(FEQ, a, b)));
        case 10: return out(mkNot(mkFCmp(FLE, a, b)));
        case 11: return out(mkNot(mkFCmp(FLT, a, b)));
        case 12: return out(mkNot(mkFCmp(FLE, b, a)));
        case 13: return out(mkNot(mkFCmp(FLT, b, a)));
        case 14: return out(mkNot(mkFCmp(FEQ, a, b)));
        }
        return 0;
    }
    switch (p) {
    case 32: return out(mkEq(a, b));
    case 33: return out(mkNot(mkEq(a, b)));
    case 34: return out(mkUlt(b, a));
    case 35: return out(mkUle(b, a));
    case 36: return out(mkUlt(a, b));
    case 37: return out(mkUle(a, b));
    case 38: return out(mkSlt(b, a));
    case 39: return out(mkSle(b, a));
    case 40: return out(mkSlt(a, b));
    case 41: return out(mkSle(a, b));
    }
    return 0;
}
E __rsx_cast(u32 code, E a, u64 ca) {
    MARK();
    unsigned op = code & 0xff, tc = (code >> 8) & 0xff, t2 = (code >> 16) & 0xff, w2 = t2 & 0x7f;
    a = val(a, tc, ca);
    if (a->isC()) return 0;
    switch (op) {
    case RSX_TRUNC: return out(mkExtract(a, 0, w2));
    case RSX_ZEXT: return out(mkZext(a, w2));
    case RSX_SEXT: return out(mkSext(a, w2));
    case RSX_FPTOSI: return out(mkF2I(a, w2, true));
    case RSX_FPTOUI: return out(mkF2I(a, w2, false));
    case RSX_SITOFP: return out(mkIntToF(a, true, w2));
    case RSX_UITOFP: return out(mkIntToF(a, false, w2));
    case RSX_FPTRUNC: case RSX_FPEXT: return out(mkFResize(a, w2));
    case RSX_BITCAST: return out(t2 & RSX_FP ? mkFromBits(a) : mkToBits(a));
    }
    return 0;
}
E __rsx_select(u32 code, E c, u8 cc, E t, E f, u64 ct, u64 cf) {
    MARK();
    unsigned tc = code & 0xff;
    c = val(c, 1, cc & 1);
    if (c->isC()) return cc & 1 ? t : f;
    t = val(t, tc, ct); f = val(f, tc, cf);
    if (!(tc & RSX_FP) && (tc & 0x7f) == 64 && t != f && (looksPointer(t->cv) || looksPointer(f->cv))) { bool b = decideBr(c); return out(b ? t : f); }
    return out(mkIte(c, t, f));
}
E __rsx_gep(E s, u64 base, E six, u64 ix, u64 scale) {
    if (!s && !six) return 0;
    E b = val(s, 64, base);
    E i = val(six, 64, ix);
    E r = mkBin(ADD, b, mkBin(MUL, i, mkC(64, scale)));
    if (r->isC()) return 0;
    u64 pv = base;
    if (s) { auto it = prov->find(s); if (it != prov->end()) pv = it->second; }
    (*prov)[r] = pv;
    return r;
}
void __rsx_branch(E s, u8 c, u32 site) {
    MARK();
    s = val(s, 1, c & 1);
    if (s->isC()) return;
    decideK(s, EV_BR, site);
}
void __rsx_switch(E s, u64 v, u32 n, const u64 *cs, u32 site) {
    MARK();
    if (!s || s->isC()) return;
    if (s->cv != (v & M(s->w))) { INC(mismatches); return; }
    for (u32 i = 0; i < n; i++) {   // the same order on every path
        E q = mkEq(s, mkC(s->w, cs[i]));
        if ((cs[i] & M(s->w)) == s->cv) { addEvent(q, EV_BR, site); return; }
        addEvent(q, EV_BR, site);
    }
}
E __rsx_intr1(u32 code, E a, u64 ca) {
    unsigned op = code & 0xff, tc = (code >> 8) & 0xff, w = tc & 0x7f;
    a = val(a, tc, ca);
    if (a->isC()) return 0;
    switch (op) {
    case RSX_FNEG: return out(mkFUn(FNEG, a, 0));
    case RSX_FABS: return out(mkFUn(FABS, a, 0));
    case RSX_FLOOR: return out(mkFUn(FRND, a, RND_FLOOR));
    case RSX_CEIL: return out(mkFUn(FRND, a, RND_CEIL));
    case RSX_FTRUNC: return out(mkFUn(FRND, a, RND_TRUNC));
    case RSX_SQRT: return out(mkFUn(FSQRT, a, 0));
    case RSX_ABS: return out(mkIte(mkSlt(a, mkC(w, 0)), mkBin(SUB, mkC(w, 0), a), a));
    case RSX_BSWAP: { E r = 0; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } return out(r); }
    case RSX_CTLZ: return out(mkUn(CLZ, a));
    case RSX_CTTZ: return out(mkUn(CTZ, a));
    case RSX_CTPOP: return out(mkUn(POPC, a));
    case RSX_FPCLASS: {
        unsigned mask = code >> 16;
        E isn = mkFNan(a);
        E bits = isn->isC() && isn->x ? mkC(w, a->cv) : 0;
        u64 S = 1ull << (w - 1), INF = w == 64 ? 0x7ff0000000000000ull : 0x7f800000u, MINN = w == 64 ? 1ull << 52 : 1u << 23;
        E r = mkC(1, 0);
        if (mask & 3) r = mkOr(r, isn);
        if ((mask & 0x3fc) == 0x3fc) return out(mkOr(r, mkNot(isn)));
        if ((mask & ~3u) == 0) return out(r);
        if ((mask & ~3u) == 0x204 || (mask & ~3u) == 0x1f8) {  // infinite / finite
            E x = mkFUn(FABS, a, 0);
            E inf = mkFCmp(FEQ, x, mkFC(w, INF));
            return out(mkOr(r, (mask & ~3u) == 0x204 ? inf : mkAnd(mkNot(isn), mkNot(inf))));
        }
        if (!bits) { if (decideBr(isn)) return out(mkC(1, (mask & 3) != 0)); bits = mkToBits(a); }
        struct { unsigned bit; u64 l, h; } cl[] = {{2, S + INF, S + INF}, {3, S + MINN, S + INF - 1}, {4, S + 1, S + MINN - 1}, {5, S, S}, {6, 0, 0}, {7, 1, MINN - 1}, {8, MINN, INF - 1}, {9, INF, INF}};
        for (auto &q : cl) if (mask >> q.bit & 1) r = mkOr(r, mkAnd(mkUle(mkC(w, q.l), bits), mkUle(bits, mkC(w, q.h))));
        return out(r);
    }
    }
    return 0;
}
E __rsx_intr2(u32 code, E a, E b, u64 ca, u64 cb) {
    unsigned op = code & 0xff, tc = (code >> 8) & 0xff, w = tc & 0x7f;
    a = val(a, tc, ca); b = val(b, tc, cb);
    switch (op) {
    case RSX_UMIN: return out(mkIte(mkUlt(a, b), a, b));
    case RSX_UMAX: return out(mkIte(mkUlt(a, b), b, a));
    case RSX_SMIN: return out(mkIte(mkSlt(a, b), a, b));
    case RSX_SMAX: return out(mkIte(mkSlt(a, b), b, a));
    case RSX_USUBSAT: return out(mkIte(mkUlt(a, b), mkC(w, 0), mkBin(SUB, a, b)));
    case RSX_UADDSAT: { E s = mkBin(ADD, a, b); return out(mkIte(mkUlt(s, a), mkC(w, ~0ull), s)); }
    case RSX_COPYSIGN: {
        if (a->isC() && b->isC()) return 0;
        E ab = mkFUn(FABS, a, 0);
        E x; (void)x;
        E isn = mkFNan(b);
        E neg;
        if (isn->isC() && !isn->x) { E bb = mkToBits(b); neg = mkEq(mkExtract(bb, w - 1, 1), mkC(1, 1)); }
        else { noteDrop("copysign"); return 0; }
        return out(mkFIte(neg, mkFUn(FNEG, ab, 0), ab));
    }
    }
    return 0;
}
E __rsx_fsh(u32 code, E a, E b, E n, u64 ca, u64 cb, u64 cn) {
    unsigned op = code & 0xff, tc = (code >> 8) & 0xff, w = tc & 0x7f;
    a = val(a, tc, ca); b = val(b, tc, cb); n = val(n, tc, cn);
    u64 k = concretize(n) % w;
    if (w > 32 || true) {
        if (k == 0) return out(op == RSX_SHL ? a : b);
        if (op == RSX_SHL) return out(mkConcat(mkExtract(a, 0, w - k), mkExtract(b, w - k, k)));
        return out(mkConcat(mkExtract(a, 0, k), mkExtract(b, k, w - k)));
    }
}
E __rsx_ovf(u32 code, E a, E b, u64 ca, u64 cb) {
    unsigned op = code & 0xff, tc = (code >> 8) & 0x7f, w = tc & 0x7f; bool sg = code >> 31;
    a = val(a, tc, ca); b = val(b, tc, cb);
    if (w > 32) {
        // wide case: express through ranges for add/sub, concretize for mul
        E z = mkC(w, 0);
        if (op == RSX_ADD) { E s = mkBin(ADD, a, b); return out(sg ? mkNot(mkEq(mkSlt(s, a), mkSlt(b, z))) : mkUlt(s, a)); }
        if (op == RSX_SUB) { E s = mkBin(SUB, a, b); return out(sg ? mkNot(mkEq(mkSlt(a, s), mkSlt(b, z))) : mkUlt(a, b)); }
        if (!sg) {
            const RSet *ra = rangeOf(a), *rb = rangeOf(b);
            if (((u128)rs_max(ra) * rs_max(rb)) >> w == 0) return 0;
            if (a->isC() || b->isC()) { E v = a->isC() ? b : a; u64 c = (a->isC() ? a : b)->x; if (!c) return 0; return out(mkUlt(mkC(w, M(w) / c), v)); }
        }
        noteDrop("mul_overflow");
        return 0;
    }
    E x = sg ? mkSext(a, 64) : mkZext(a, 64), y = sg ? mkSext(b, 64) : mkZext(b, 64);
    E r = mkBin(op == RSX_ADD ? ADD : op == RSX_SUB ? SUB : MUL, x, y);
    E t = mkExtract(r, 0, w);
    return out(mkNot(mkEq(sg ? mkSext(t, 64) : mkZext(t, 64), r)));
}
void __rsx_external(const char *name) { if (__rsx_active) { char b[48]; snprintf(b, sizeof b, "call:%s", name); noteDrop(b); } }
void __rsx_drop(E s, const char *name, u32 ext) {
    if (!__rsx_active || !s || s->isC()) return;
    // keep exhaustiveness where the value set is small: pin it (flippable)
    if (!s->fp() && rs_count(rangeOf(s)) <= 400) { concretize(s); return; }
    if (s->fp() && s->k == I2F && rs_count(rangeOf(s->a)) <= 400) { concretize(s); return; }
    noteDrop(name);
    if (g_trace) fprintf(stderr, "DROP %s %s\n", name, expr_str(s, 4));
}
void __rsx_drop_mem(void *p, u64 n, const char *name) {
    if (!__rsx_active) return;
    for (u64 i = 0; i < n; i += 8) {
        E e = loadCells((u64)p + i, n - i < 8 ? n - i : 8);
        if (e && !e->isC()) __rsx_drop(e, name, 2);
    }
}
static void copyCells(u64 d, u64 s, u64 n) {
    if (!n || d == s) return;
    bool any = false;
    for (u64 p = s >> 12; p <= (s + n - 1) >> 12; p++) if (__rsx_bloom[p & (RSX_BLOOM - 1)] && getPage(p, false)) { any = true; break; }
    if (!any) { clearCells(d, n); return; }
    std::vector<Cell> t(n);
    for (u64 i = 0; i < n; i++) t[i] = getCell(s + i);
    for (u64 i = 0; i < n; i++) {
        Page *p = getPage((d + i) >> 12, t[i] != 0);
        if (p) p->c[(d + i) & 4095] = t[i];
    }
}
void __rsx_memcpy(void *d, void *s, u64 n, E sd, E ss, E sn) {
    if (!__rsx_active) return;
    if (sn && sn->cv == n) concretize(sn);
    if (sd && sd->cv == (u64)d) concretize(sd);
    if (ss && ss->cv == (u64)s) concretize(ss);
    if (n) { checkValid((u64)s, 1, false); checkValid((u64)d, 1, true); checkValid((u64)s + n - 1, 1, false); checkValid((u64)d + n - 1, 1, true); }
    copyCells((u64)d, (u64)s, n);
}
void __rsx_memset(void *d, u8 v, u64 n, E sd, E sv, E sn) {
    if (!__rsx_active) return;
    if (sn && sn->cv == n) concretize(sn);
    if (sd && sd->cv == (u64)d) concretize(sd);
    if (n) { checkValid((u64)d, 1, true); checkValid((u64)d + n - 1, 1, true); }
    if (sv && !sv->isC() && sv->w == 8 && n <= 65536) { for (u64 i = 0; i < n; i++) putCells((u64)d + i, sv, 1); }
    else clearCells((u64)d, n);
}
static u64 rd(void *p, unsigned w) { u64 v = 0; memcpy(&v, p, w / 8); return v; }
E __rsx_rmw(u32 code, void *p, E sp, E sv, u64 cv) {
    if (!__rsx_active) return 0;
    unsigned op = code & 0xff, tc = (code >> 8) & 0xff, w = tc & 0x7f;
    if (sp) concretize(sp);
    E old = loadCells((u64)p, w / 8);
    E o = old ? old : mkC(w, rd(p, w)), v = val(sv, tc, cv), r;
    if (op == RSX_XCHG) r = v; else r = mkBin(binKind(op), o, v);
    if (r->isC()) clearCells((u64)p, w / 8); else putCells((u64)p, r, w / 8);
    return out(o);
}
E __rsx_cas(u32 code, void *p, E sp, E sc, u64 cc, E sn, u64 cn) {
    if (!__rsx_active) return 0;
    unsigned tc = (code >> 8) & 0xff, w = tc & 0x7f;
    if (sp) concretize(sp);
    E old = loadCells((u64)p, w / 8);
    E o = old ? old : mkC(w, rd(p, w)), c = val(sc, tc, cc), n = val(sn, tc, cn);
    if (decideBr(mkEq(o, c))) { if (n->isC()) clearCells((u64)p, w / 8); else putCells((u64)p, n, w / 8); }
    return out(o);
}

// ------------------------------------------------------------------ wrapped externals
static void (*gcFn)(void); static int gcN, gcMax; static E gcVar; static int gcVal;
static void allocPoint() {
    if (!gcFn || gcN >= gcMax) return;
    gcN++;
    bool hit = gcVal == gcN;
    if (gcVar) { E q = mkEq(gcVar, mkC(32, gcN)); addEvent(q, EV_BR, 0x7fff0000u + gcN); }
    if (hit) { void (*f)(void) = gcFn; gcFn = 0; f(); }
}
/* every object the collector manages passes here: the only points at which a collection can start */
extern "C" void __real_rjs_gc_add(void *rt, void *thing, const void *ops);
extern "C" void __wrap_rjs_gc_add(void *rt, void *thing, const void *ops) { if (__rsx_active) allocPoint(); __real_rjs_gc_add(rt, thing, ops); }
void *__rsxw_malloc(size_t n) { E s = ARGS[0]; if (s && s->cv == n && !s->isC()) concretize(s); RET = 0; return hmalloc(n); }
void __rsxw_free(void *p) { hfree(p); RET = 0; }
void *__rsxw_calloc(size_t a, size_t b) {
    for (int i = 0; i < 2; i++) if (ARGS[i] && !ARGS[i]->isC()) concretize(ARGS[i]);
    void *p = hmalloc(a * b); if (p) memset(p, 0, a * b); RET = 0; return p;
}
void *__rsxw_realloc(void *p, size_t n) {
    E s = ARGS[1];
    if (s && !s->isC() && s->cv == n) concretize(s);
    RET = 0;
    if (!p) return hmalloc(n);
    u64 o = *(u64 *)((u8 *)p - 16);
    if (*(u64 *)((u8 *)p - 8) != 0xA110C) violation("realloc of an invalid block");
    void *q = hmalloc(n);
    if (!q) return 0;
    u64 k = o < n ? o : n;
    if (__rsx_active) copyCells((u64)q, (u64)p, k);
    memcpy(q, p, k);
    hfree(p);
    RET = 0;
    return q;
}
void *__rsxw_memcpy(void *d, const void *s, size_t n) { __rsx_memcpy(d, (void *)s, n, ARGS[0], ARGS[1], ARGS[2]); RET = ARGS[0]; return memcpy(d, s, n); }
void *__rsxw_memmove(void *d, const void *s, size_t n) { __rsx_memcpy(d, (void *)s, n, ARGS[0], ARGS[1], ARGS[2]); RET = ARGS[0]; return memmove(d, s, n); }
void *__rsxw_memset(void *d, int v, size_t n) { E sv = ARGS[1] ? mkExtract(ARGS[1], 0, 8) : 0; __rsx_memset(d, (u8)v, n, ARGS[0], sv, ARGS[2]); RET = ARGS[0]; return memset(d, v, n); }

static u64 dbits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static E arg(int i, unsigned tc, u64 c) { E s = ARGS[i]; return s ? val(s, tc, c) : 0; }
#define FUN1(nm, K, mode) double __rsxw_##nm(double x) { E a = arg(0, 0xC0, dbits(x)); double r = nm(x); RET = a ? out(mkFUn(K, a, mode)) : 0; return r; }
FUN1(floor, FRND, RND_FLOOR) FUN1(ceil, FRND, RND_CEIL) FUN1(trunc, FRND, RND_TRUNC) FUN1(round, FRND, RND_NEAR_AWAY)
FUN1(rint, FRND, RND_NEAR_EVEN) FUN1(nearbyint, FRND, RND_NEAR_EVEN) FUN1(fabs, FABS, 0) FUN1(sqrt, FSQRT, 0)
double __rsxw_fmod(double x, double y) {
    E a = arg(0, 0xC0, dbits(x)), b = arg(1, 0xC0, dbits(y)); double r = fmod(x, y);
    RET = 0;
    if (a || b) {
        E m = mkFMod(a ? a : mkFC(64, dbits(x)), b ? b : mkFC(64, dbits(y)));
        if (m) RET = out(m); else { if (a) __rsx_drop(a, "fmod", 1); if (b) __rsx_drop(b, "fmod", 1); RET = 0; }
    }
    return r;
}
// an unmodelled function of an integer from a small range is enumerated instead of dropped
static E pinSmall(E a, double x) {
    if (!a || a->k != I2F) return a;
    if (rs_count(rangeOf(a->a)) > 4096) return a;
    if (a->b && decideBr(a->b)) return 0;
    concretize(a->a);
    return 0;
}
#define FUND1(nm) double __rsxw_##nm(double x) { E a = pinSmall(arg(0, 0xC0, dbits(x)), x); if (a) __rsx_drop(a, #nm, 1); RET = 0; return nm(x); }
#define FUND2(nm) double __rsxw_##nm(double x, double y) { E a = arg(0, 0xC0, dbits(x)), b = arg(1, 0xC0, dbits(y)); a = pinSmall(a, x); b = pinSmall(b, y); if (a) __rsx_drop(a, #nm, 1); if (b) __rsx_drop(b, #nm, 1); RET = 0; return nm(x, y); }
FUND1(exp) FUND1(expm1) FUND1(log) FUND1(log2) FUND1(log10) FUND1(log1p) FUND1(sin) FUND1(cos) FUND1(tan) FUND1(asin) FUND1(acos) FUND1(atan)
FUND1(sinh) FUND1(cosh) FUND1(tanh) FUND1(asinh) FUND1(acosh) FUND1(atanh) FUND1(cbrt) FUND2(pow) FUND2(atan2) FUND2(hypot)
int __rsxw_abs(int v) { E a = arg(0, 32, (u32)v); RET = a ? out(mkIte(mkSlt(a, mkC(32, 0)), mkBin(SUB, mkC(32, 0), a), a)) : 0; return abs(v); }
int __rsxw_rand(void) { static u32 s = 12345; s = s * 1103515245u + 12345u; RET = 0; return (s >> 8) & 0x7fffff; }
time_t __rsxw_time(time_t *t) { RET = 0; if (t) *t = 1700000000; return 1700000000; }
static u64 fakeMs = 1700000000000ull;
int __rsxw_gettimeofday(struct timeval *tv, void *tz) { RET = 0; fakeMs++; tv->tv_sec = fakeMs / 1000; tv->tv_usec = (fakeMs % 1000) * 1000; return 0; }
int __rsxw_clock_gettime(clockid_t c, struct timespec *tv) { RET = 0; fakeMs++; tv->tv_sec = fakeMs / 1000; tv->tv_nsec = (fakeMs % 1000) * 1000000; return 0; }

// snprintf: integers are printed digit by digit (the number of digits is a branch), strings are copied
int __rsxw_snprintf(char *buf, size_t cap, const char *fmt, ...) {
    va_list ap, ap2; va_start(ap, fmt); va_copy(ap2, ap);
    E sh[RSX_MAXARGS]; memcpy(sh, ARGS, sizeof sh);
    RET = 0;
    int total = vsnprintf(buf, cap, fmt, ap2);
    va_end(ap2);
    if (!__rsx_active) { va_end(ap); return total; }
    std::vector<std::pair<u8, E>> o; int ai = 3; bool ok = true;
    for (const char *f = fmt; *f && ok;) {
        if (*f != '%') { o.push_back({(u8)*f++, (E)0}); continue; }
        f++;
        if (*f == '%') { o.push_back({'%', (E)0}); f++; continue; }
        bool zero = false; int width = 0, lng = 0;
        if (*f == '0') { zero = true; f++; }
        while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
        int prec = -1;
        if (*f == '.' && f[1] >= '0' && f[1] <= '9') { prec = 0; f++; while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
        while (*f == 'l' || *f == 'z') { lng++; f++; }
        char c = *f++;
        if (prec >= 0 && c != 's') c = 0;
        if (c == 's') {
            const char *s = va_arg(ap, const char *); ai++;
            for (int i = 0; prec < 0 || i < prec; i++) {
                E e = loadCells((u64)(s + i), 1);
                if (e && !e->isC()) decideBr(mkEq(e, mkC(8, 0)));
                if (!s[i]) break;
                o.push_back({(u8)s[i], e});
            }
        } else if (c == 'c') { int v = va_arg(ap, int); E e = sh[ai] ? val(sh[ai], 32, (u32)v) : 0; ai++; o.push_back({(u8)v, e ? mkExtract(e, 0, 8) : 0}); }
        else if (c == 'd' || c == 'u' || c == 'i') {
            unsigned w = lng ? 64 : 32; u64 v = lng ? va_arg(ap, u64) : (u64)va_arg(ap, u32);
            E e = sh[ai] ? val(sh[ai], w, v) : mkC(w, v); ai++;
            bool neg = false;
            if (c != 'u') { E q = mkSlt(e, mkC(w, 0)); neg = q->isC() ? q->cv : decideBr(q); if (neg) e = mkBin(SUB, mkC(w, 0), e); }
            const RSet *r = rangeOf(e);
            if (w == 64 && rs_max(r) <= 0xffffffffu) e = mkExtract(e, 0, 32), w = 32;
            u64 cvv = e->cv, p10 = 10; int nd = 1;
            while (nd < 20) { E q = mkUlt(e, mkC(w, p10)); bool lt = q->isC() ? q->cv : decideBr(q); if (lt) break; nd++; if (p10 > M(w) / 10) break; p10 *= 10; }
            int pad = width - nd - neg;
            if (neg && zero) o.push_back({'-', (E)0});
            for (int i = 0; i < pad; i++) o.push_back({(u8)(zero ? '0' : ' '), (E)0});
            if (neg && !zero) o.push_back({'-', (E)0});
            u64 d = 1; for (int i = 1; i < nd; i++) d *= 10;
            for (int i = 0; i < nd; i++, d /= 10) {
                E q = d == 1 ? e : mkBin(UDIV, e, mkC(w, d));
                if (i) q = mkBin(UREM, q, mkC(w, 10));
                E ch = mkBin(ADD, mkExtract(q, 0, 8), mkC(8, '0'));
                o.push_back({(u8)('0' + cvv / d % 10), ch->isC() ? (E)0 : ch});
            }
        } else { ok = false; char nb[48]; snprintf(nb, sizeof nb, "snprintf format %.30s", fmt); noteDrop(nb); }
    }
    va_end(ap);
    if (ok && (int)o.size() != total) { INC(mismatches); ok = false; }
    clearCells((u64)buf, cap);
    if (ok) for (size_t i = 0; i < o.size() && i + 1 < cap; i++) if (o[i].second && !o[i].second->isC()) putCells((u64)buf + i, o[i].second, 1);
    RET = 0;
    return total;
}

// int -> int functions of the Unicode tables, as decision trees over the range of the argument
typedef std::vector<std::pair<u64, u64>> Runs;   // start -> value, over 0..10FFFF
static std::unordered_map<u64, Runs> *runTabs;
static Runs &runTab(u64 key, unsigned wout, u64 (*f)(u64, void *), void *ctx) {
    if (!runTabs) runTabs = new std::unordered_map<u64, Runs>;
    auto it = runTabs->find(key);
    if (it != runTabs->end()) return it->second;
    Runs r;
    for (u64 v = 0; v <= 0x10ffff; v++) { u64 o = f(v, ctx) & M(wout); if (r.empty() || r.back().second != o) r.push_back({v, o}); }
    r.push_back({0x110000, 0});
    return (*runTabs)[key] = r;
}
static E runTree(E a, const Runs &r, size_t l, size_t h, unsigned wout) {  // runs l..h-1
    if (h - l == 1) return mkC(wout, r[l].second);
    size_t m = (l + h) / 2;
    E x = runTree(a, r, l, m, wout), y = runTree(a, r, m, h, wout);
    return x == y ? x : mkIte(mkUlt(a, mkC(a->w, r[m].first)), x, y);
}
static E tabulate(E a, unsigned wout, const char *nm, u64 key, u64 (*f)(u64, void *), void *ctx) {
    const Runs &t = runTab(key, wout, f, ctx);
    RSet rr = *rangeOf(a);
    if (rs_max(&rr) > 0x10ffff) {
        bool in = decideBr(mkUle(a, mkC(a->w, 0x10ffff)));
        if (!in) return mkC(wout, f(0x110000, ctx));   // outside Unicode: the functions are constant there
        rr = *rangeOf(a);
        RSet t; t.n = 0;
        for (int i = 0; i < rr.n; i++) if (rr.lo[i] <= 0x10ffff) { t.lo[t.n] = rr.lo[i]; t.hi[t.n] = std::min(rr.hi[i], (u64)0x10ffff); t.n++; }
        rr = t;
    }
    Runs runs;
    for (int i = 0; i < rr.n; i++) {
        u64 lo = rr.lo[i], hi = rr.hi[i];
        size_t k = std::upper_bound(t.begin(), t.end(), std::pair<u64, u64>(lo, ~(u64)0)) - t.begin() - 1;
        for (; k < t.size() && t[k].first <= hi; k++) runs.push_back({std::max(lo, t[k].first), t[k].second});
    }
    Runs q;
    for (auto &x : runs) if (q.empty() || q.back().second != x.second) q.push_back(x);
    return out(runTree(a, q, 0, q.size(), wout));
}
#define INTARG(i, c) E a = ARGS[i] ? val(ARGS[i], 32, (u32)(c)) : 0; if (a && a->isC()) a = 0;
#define UN(n) __rsxw_##n
static u64 f_ct(u64 v, void *) { return (u64)u_charType((UChar32)v); }
static u64 f_bp(u64 v, void *x) { return (u64)u_hasBinaryProperty((UChar32)v, *(UProperty *)x); }
static u64 f_ws(u64 v, void *) { return (u64)u_isUWhiteSpace((UChar32)v); }
static u64 f_fc(u64 v, void *x) { return (u32)(u_foldCase((UChar32)v, *(uint32_t *)x) - (UChar32)v); }
static u64 f_sc(u64 v, void *x) { UErrorCode e = U_ZERO_ERROR; return (u64)uscript_getScript((UChar32)v, &e); }
static u64 f_hs(u64 v, void *x) { return (u64)uscript_hasScript((UChar32)v, *(UScriptCode *)x); }
static u64 f_lo(u64 v, void *) { return (u32)(u_tolower((UChar32)v) - (UChar32)v); }
static u64 f_up(u64 v, void *) { return (u32)(u_toupper((UChar32)v) - (UChar32)v); }
static u64 special(u64 v, bool up) {  // full case mapping differs from the simple one, or depends on context
    if (v >= 0xd800 && v <= 0xdfff) return 1;
    if (v > 0xffff) return 1;
    if (!up && v == 0x3a3) return 1;
    UChar s = (UChar)v, d[8]; UErrorCode e = U_ZERO_ERROR;
    int n = up ? u_strToUpper(d, 8, &s, 1, NULL, &e) : u_strToLower(d, 8, &s, 1, NULL, &e);
    UChar32 m = up ? u_toupper((UChar32)v) : u_tolower((UChar32)v);
    return n != 1 || d[0] != m;
}
static u64 f_slo(u64 v, void *) { return special(v, false); }
static u64 f_sup(u64 v, void *) { return special(v, true); }
static void warmTabs() {
    for (UProperty p : {UCHAR_ID_START, UCHAR_ID_CONTINUE}) runTab(1000 + p, 8, f_bp, &p);
    uint32_t o = U_FOLD_CASE_DEFAULT;
    runTab(1, 8, f_ct, 0); runTab(2, 8, f_ws, 0); runTab(10 + o, 32, f_fc, &o);
    runTab(5, 32, f_lo, 0); runTab(6, 32, f_up, 0); runTab(7, 1, f_slo, 0); runTab(8, 1, f_sup, 0);
}
int8_t UN(u_charType)(UChar32 c) { INTARG(0, c); RET = 0; if (a) RET = tabulate(a, 8, "u_charType", 1, f_ct, 0); return u_charType(c); }
UBool UN(u_hasBinaryProperty)(UChar32 c, UProperty w) { INTARG(0, c); RET = 0; if (a) RET = tabulate(a, 8, "u_hasBinaryProperty", 1000 + w, f_bp, &w); return u_hasBinaryProperty(c, w); }
UBool UN(u_isUWhiteSpace)(UChar32 c) { INTARG(0, c); RET = 0; if (a) RET = tabulate(a, 8, "u_isUWhiteSpace", 2, f_ws, 0); return u_isUWhiteSpace(c); }
UChar32 UN(u_foldCase)(UChar32 c, uint32_t o) {
    INTARG(0, c); RET = 0;
    if (a) { E d = tabulate(a, 32, "u_foldCase", 10 + o, f_fc, &o); RET = d ? out(mkBin(ADD, a, d)) : u_foldCase(c, o) == c ? a : 0; }
    return u_foldCase(c, o);
}
UScriptCode UN(uscript_getScript)(UChar32 c, UErrorCode *e) { INTARG(0, c); RET = 0; if (a) RET = tabulate(a, 32, "uscript_getScript", 3, f_sc, 0); return uscript_getScript(c, e); }
UBool UN(uscript_hasScript)(UChar32 c, UScriptCode s) { INTARG(0, c); RET = 0; if (a) RET = tabulate(a, 8, "uscript_hasScript", 2000000 + s, f_hs, &s); return uscript_hasScript(c, s); }
static void pinRange(const void *p, u64 n) { for (u64 i = 0; i < n; i += 2) { E e = loadCells((u64)p + i, 2); if (e) concretize(e); } }
static bool caseMap(UChar *d, int32_t dc, const UChar *s, int32_t sl, bool up, std::vector<E> &res) {
    // true: res holds the mapped characters (0 where concrete); otherwise the input has been pinned
    if (sl < 0) sl = u_strlen(s);
    bool ok = true; std::vector<E> in(sl);
    for (int i = 0; i < sl; i++) {
        E c = loadCells((u64)(s + i), 2);
        if (!c) { if (up ? f_sup(s[i], 0) : f_slo(s[i], 0)) ok = false; continue; }
        in[i] = c;
        E sp = tabulate(mkZext(c, 32), 1, "case", up ? 8 : 7, up ? f_sup : f_slo, 0);
        if (sp) { if (decideBr(sp)) ok = false; } else if (up ? f_sup(s[i], 0) : f_slo(s[i], 0)) ok = false;
    }
    if (!ok) { pinRange(s, 2 * sl); return false; }
    res.assign(sl, 0);
    for (int i = 0; i < sl; i++) if (in[i]) {
        E w = mkZext(in[i], 32), dl = tabulate(w, 32, "case", up ? 6 : 5, up ? f_up : f_lo, 0);
        u64 cd = (up ? f_up(s[i], 0) : f_lo(s[i], 0)) & M(32);
        res[i] = mkExtract(mkBin(ADD, w, dl ? dl : mkC(32, cd)), 0, 16);
    }
    return true;
}
static int32_t caseRun(UChar *d, int32_t dc, const UChar *s, int32_t sl, const char *l, UErrorCode *e, bool up) {
    std::vector<E> res; bool m = false;
    if (__rsx_active) m = caseMap(d, dc, s, sl, up, res);
    RET = 0;
    int32_t r = up ? u_strToUpper(d, dc, s, sl, l, e) : u_strToLower(d, dc, s, sl, l, e);
    if (__rsx_active) { clearCells((u64)d, 2 * dc); if (m) for (size_t i = 0; i < res.size() && (int)i < dc; i++) if (res[i] && !res[i]->isC()) putCells((u64)(d + i), res[i], 2); }
    return r;
}
int32_t UN(u_strToLower)(UChar *d, int32_t dc, const UChar *s, int32_t sl, const char *l, UErrorCode *e) { return caseRun(d, dc, s, sl, l, e, false); }
int32_t UN(u_strToUpper)(UChar *d, int32_t dc, const UChar *s, int32_t sl, const char *l, UErrorCode *e) { return caseRun(d, dc, s, sl, l, e, true); }
const char *UN(u_errorName)(UErrorCode c) { RET = 0; return u_errorName(c); }
int32_t UN(unorm2_normalize)(const UNormalizer2 *n, const UChar *s, int32_t sl, UChar *d, int32_t dc, UErrorCode *e) { if (__rsx_active) { pinRange(s, sl < 0 ? 2 * u_strlen(s) : 2 * sl); clearCells((u64)d, 2 * dc); } RET = 0; return unorm2_normalize(n, s, sl, d, dc, e); }
int32_t UN(unorm_compare)(const UChar *a, int32_t al, const UChar *b, int32_t bl, uint32_t o, UErrorCode *e) { if (__rsx_active) { pinRange(a, 2 * al); pinRange(b, 2 * bl); } RET = 0; return unorm_compare(a, al, b, bl, o, e); }
// conversion: the well-formed part runs through instrumented code (rsxlibc.c); the rest is pinned
// (flippable) and goes through the real converter
void rl_utf8to16(char **tp, const char *tl, const char **sp, const char *sl);
void rl_utf16to8(char **tp, const char *tl, const char **sp, const char *sl);
static u8 convKind(UConverter *c) {
    UConverterType t = ucnv_getType(c);
    return t == UCNV_UTF8 ? 1 : t == UCNV_UTF16_LittleEndian ? 2 : 0;
}
void UN(ucnv_convertEx)(UConverter *t, UConverter *s, char **tp, const char *tl, const char **sp, const char *sl, UChar *ps, UChar **psrc, UChar **ptgt, const UChar *pl, UBool r, UBool f, UErrorCode *e) {
    bool whole = false;
    if (__rsx_active) {
        bool any = false;
        for (const char *p = *sp; p < sl && !any; p++) if (loadCells((u64)p, 1)) any = true;
        if (any) {
            u8 a = convKind(s), b = convKind(t);
            if (*psrc == *ptgt && ((a == 1 && b == 2) || (a == 2 && b == 1))) {
                for (int i = 0; i < 4; i++) ARGS[i] = 0;
                if (a == 1) rl_utf8to16(tp, tl, sp, sl); else rl_utf16to8(tp, tl, sp, sl);
                if (*sp == sl) whole = true;
            }
            for (const char *p = *sp; p < sl; p++) { E x = loadCells((u64)p, 1); if (x) concretize(x); }
        }
        clearCells((u64)*tp, tl - *tp);
    }
    RET = 0;
    (void)whole;
    ucnv_convertEx(t, s, tp, tl, sp, sl, ps, psrc, ptgt, pl, r, f, e);
}
}  // extern "C"

// ------------------------------------------------------------------ Z3
static Z3_context Z; static Z3_solver zs, zsf; static Z3_tactic tacBv, tacFp; static Z3_params parFull; static unsigned qTimeout = 4000;
static Z3_sort bvs(unsigned w) { static Z3_sort s[65]; if (!s[w]) s[w] = Z3_mk_bv_sort(Z, w); return s[w]; }
static Z3_sort F64, F32; static Z3_ast RNE, RTZ, RTP, RTN, RNA;
static Z3_ast bvc(unsigned w, u64 v) { return Z3_mk_unsigned_int64(Z, v, bvs(w)); }
static Z3_ast zv(E e); static Z3_ast zb(E e); static Z3_ast zf(E e);
static std::vector<Z3_ast> *zkeep;
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast zint(E e64) {  // narrow a 64-bit int known to be small
    const RSet *r = rangeOf(e64); i64 lo = rs_smin(r, 64), hi = rs_smax(r, 64);
    unsigned w = 64;
    for (unsigned t : {8u, 12u, 16u, 24u, 32u, 48u, 54u}) if (lo >= -(1ll << (t - 1)) && hi < (1ll << (t - 1))) { w = t; break; }
    Z3_ast a = zv(e64);
    return w == 64 ? a : Z3_mk_extract(Z, w - 1, 0, a);
}
static Z3_ast zrm(u64 m) { return m == RND_FLOOR ? RTN : m == RND_CEIL ? RTP : m == RND_TRUNC ? RTZ : m == RND_NEAR_EVEN ? RNE : RNA; }
static Z3_sort fs(unsigned w) { return w == 64 ? F64 : F32; }
static Z3_ast zf(E e) {
    if (e->z) return (Z3_ast)e->z;
    Z3_ast r = 0;
    switch (e->k) {
    case FCONST: r = Z3_mk_fpa_to_fp_bv(Z, bvc(e->w, e->x), fs(e->w)); break;
    case FROMBITS: r = Z3_mk_fpa_to_fp_bv(Z, zv(e->a), fs(e->w)); break;
    case I2F: {
        Z3_ast i = Z3_mk_fpa_to_fp_signed(Z, RNE, zint(e->a), fs(e->w));
        r = e->b ? Z3_mk_ite(Z, zb(e->b), Z3_mk_fpa_zero(Z, fs(e->w), true), i) : i;
        break;
    }
    case SI2F: r = Z3_mk_fpa_to_fp_signed(Z, RNE, zv(e->a), fs(e->w)); break;
    case UI2F: r = Z3_mk_fpa_to_fp_unsigned(Z, RNE, zv(e->a), fs(e->w)); break;
    case FADD: r = Z3_mk_fpa_add(Z, RNE, zf(e->a), zf(e->b)); break;
    case FSUB: r = Z3_mk_fpa_sub(Z, RNE, zf(e->a), zf(e->b)); break;
    case FMUL: r = Z3_mk_fpa_mul(Z, RNE, zf(e->a), zf(e->b)); break;
    case FDIV: r = Z3_mk_fpa_div(Z, RNE, zf(e->a), zf(e->b)); break;
    case FNEG: r = Z3_mk_fpa_neg(Z, zf(e->a)); break;
    case FABS: r = Z3_mk_fpa_abs(Z, zf(e->a)); break;
    case FSQRT: r = Z3_mk_fpa_sqrt(Z, RNE, zf(e->a)); break;
    case FRND: r = Z3_mk_fpa_round_to_integral(Z, zrm(e->x), zf(e->a)); break;
    case FITE: r = Z3_mk_ite(Z, zb(e->a), zf(e->b), zf(e->c)); break;
    case FEXT: case FTRUNC: r = Z3_mk_fpa_to_fp_float(Z, RNE, zf(e->a), fs(e->w)); break;
    default: abort();
    }
    e->z = keep(r);
    return r;
}
static Z3_ast zb(E e) {  // boolean translation of a 1-bit expression
    if (e->zbl) return (Z3_ast)e->zbl;
    Z3_ast r = 0, t[2];
    switch (e->k) {
    case CONST: r = e->x ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case NOT: r = Z3_mk_not(Z, zb(e->a)); break;
    case AND: t[0] = zb(e->a); t[1] = zb(e->b); r = Z3_mk_and(Z, 2, t); break;
    case OR: t[0] = zb(e->a); t[1] = zb(e->b); r = Z3_mk_or(Z, 2, t); break;
    case ITE: r = Z3_mk_ite(Z, zb(e->a), zb(e->b), zb(e->c)); break;
    case EQ: r = Z3_mk_eq(Z, zv(e->a), zv(e->b)); break;
    case ULT: r = Z3_mk_bvult(Z, zv(e->a), zv(e->b)); break;
    case ULE: r = Z3_mk_bvule(Z, zv(e->a), zv(e->b)); break;
    case SLT: r = Z3_mk_bvslt(Z, zv(e->a), zv(e->b)); break;
    case SLE: r = Z3_mk_bvsle(Z, zv(e->a), zv(e->b)); break;
    case FEQ: r = Z3_mk_fpa_eq(Z, zf(e->a), zf(e->b)); break;
    case FLT: r = Z3_mk_fpa_lt(Z, zf(e->a), zf(e->b)); break;
    case FLE: r = Z3_mk_fpa_leq(Z, zf(e->a), zf(e->b)); break;
    case FNAN: r = Z3_mk_fpa_is_nan(Z, zf(e->a)); break;
    default: r = Z3_mk_eq(Z, zv(e), bvc(1, 1)); break;
    }
    e->zbl = keep(r);
    return r;
}
// arithmetic whose operands provably fit in fewer bits is translated at that width
static unsigned narrowW(E e, bool *sg) {
    unsigned w = e->w; *sg = false;
    if (w < 12) return w;
    const RSet *ra = rangeOf(e->a); u64 am = rs_max(ra); i64 al = rs_smin(ra, w), ah = rs_smax(ra, w);
    const RSet *rb = rangeOf(e->b); u64 bm = rs_max(rb), bn = rs_min(rb); i64 bl = rs_smin(rb, w), bh = rs_smax(rb, w);
    auto bits = [](u128 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n ? n : 1; };
    auto sbits = [&](i128 v) { return bits(v < 0 ? (u128)(-v) : (u128)v) + 1; };
    unsigned n = w;
    if (e->k == MUL) {
        unsigned u = bits((u128)am * bm);
        i128 p[4] = {(i128)al * bl, (i128)al * bh, (i128)ah * bl, (i128)ah * bh}; unsigned q = 1;
        for (i128 v : p) { unsigned t = sbits(v); if (t > q) q = t; }
        for (i128 v : {(i128)al, (i128)ah, (i128)bl, (i128)bh}) { unsigned t = sbits(v); if (t > q) q = t; }
        if (am && bm && bits(am) > u) u = bits(am);
        if (am && bm && bits(bm) > u) u = bits(bm);
        if (u < w && u <= q) n = u; else if (q < w) { n = q; *sg = true; }
    } else if (e->k == UDIV || e->k == UREM) {
        if (!bn && e->k == UDIV) return w;
        n = bits(am > bm ? am : bm);
    } else {
        n = 1;
        for (i128 v : {(i128)al, (i128)ah, (i128)bl, (i128)bh}) { unsigned t = sbits(v) + 1; if (t > n) n = t; }
        *sg = true;
    }
    return n < w ? n : w;
}
static Z3_ast zv(E e) {
    if (e->z) return (Z3_ast)e->z;
    Z3_ast r = 0; unsigned w = e->w;
    if (w == 1 && (e->k == NOT || e->k == AND || e->k == OR || e->k == ITE || (e->k >= EQ && e->k <= SLE) || (e->k >= FEQ && e->k <= FNAN))) {
        r = Z3_mk_ite(Z, zb(e), bvc(1, 1), bvc(1, 0));
        e->z = keep(r);
        return r;
    }
    switch (e->k) {
    case CONST: r = bvc(w, e->x); break;
    case VAR: { char nm[64]; snprintf(nm, sizeof nm, "v%d_%s", (int)e->x, g_vars[e->x].name); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), bvs(w)); break; }
    case ADD: r = Z3_mk_bvadd(Z, zv(e->a), zv(e->b)); break;
    case SUB: r = Z3_mk_bvsub(Z, zv(e->a), zv(e->b)); break;
    case MUL: case UDIV: case SDIV: case UREM: case SREM: {
        bool sg; unsigned n = narrowW(e, &sg);
        Z3_ast a = zv(e->a), b = zv(e->b);
        if (n < w) { a = Z3_mk_extract(Z, n - 1, 0, a); b = Z3_mk_extract(Z, n - 1, 0, b); }
        r = e->k == MUL ? Z3_mk_bvmul(Z, a, b) : e->k == UDIV ? Z3_mk_bvudiv(Z, a, b) : e->k == SDIV ? Z3_mk_bvsdiv(Z, a, b) : e->k == UREM ? Z3_mk_bvurem(Z, a, b) : Z3_mk_bvsrem(Z, a, b);
        if (n < w) r = sg ? Z3_mk_sign_ext(Z, w - n, r) : Z3_mk_zero_ext(Z, w - n, r);
        break;
    }
    case AND: r = Z3_mk_bvand(Z, zv(e->a), zv(e->b)); break;
    case OR: r = Z3_mk_bvor(Z, zv(e->a), zv(e->b)); break;
    case XOR: r = Z3_mk_bvxor(Z, zv(e->a), zv(e->b)); break;
    case SHL: r = Z3_mk_bvshl(Z, zv(e->a), zv(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(Z, zv(e->a), zv(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(Z, zv(e->a), zv(e->b)); break;
    case EXTRACT: r = Z3_mk_extract(Z, (unsigned)e->x + w - 1, (unsigned)e->x, zv(e->a)); break;
    case CONCAT: r = Z3_mk_concat(Z, zv(e->a), zv(e->b)); break;
    case ZEXT: r = Z3_mk_zero_ext(Z, w - e->a->w, zv(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(Z, w - e->a->w, zv(e->a)); break;
    case ITE: r = Z3_mk_ite(Z, zb(e->a), zv(e->b), zv(e->c)); break;
    case CLZ: { r = bvc(w, w); Z3_ast x = zv(e->a); for (unsigned i = 0; i < w; i++) r = Z3_mk_ite(Z, Z3_mk_eq(Z, Z3_mk_extract(Z, i, i, x), bvc(1, 1)), bvc(w, w - 1 - i), r); break; }
    case CTZ: { r = bvc(w, w); Z3_ast x = zv(e->a); for (int i = w - 1; i >= 0; i--) r = Z3_mk_ite(Z, Z3_mk_eq(Z, Z3_mk_extract(Z, i, i, x), bvc(1, 1)), bvc(w, i), r); break; }
    case POPC: { r = bvc(w, 0); Z3_ast x = zv(e->a); for (unsigned i = 0; i < w; i++) r = Z3_mk_bvadd(Z, r, Z3_mk_zero_ext(Z, w - 1, Z3_mk_extract(Z, i, i, x))); break; }
    case TOBITS: r = Z3_mk_fpa_to_ieee_bv(Z, zf(e->a)); break;
    case F2SI: {
        Z3_ast x = zf(e->a); Z3_sort s = fs(e->a->w);
        double lim = w == 32 ? 2147483648.0 : 9223372036854775808.0;
        Z3_ast lo = e->a->w == 64 && w == 32 ? Z3_mk_fpa_lt(Z, Z3_mk_fpa_numeral_double(Z, -2147483649.0, s), x) : Z3_mk_fpa_leq(Z, Z3_mk_fpa_numeral_double(Z, -lim, s), x);
        Z3_ast in[2] = {lo, Z3_mk_fpa_lt(Z, x, Z3_mk_fpa_numeral_double(Z, lim, s))};
        r = Z3_mk_ite(Z, Z3_mk_and(Z, 2, in), Z3_mk_fpa_to_sbv(Z, RTZ, x, w), bvc(w, 1ull << (w - 1)));
        break;
    }
    default: if (w == 1) { r = Z3_mk_ite(Z, zb(e), bvc(1, 1), bvc(1, 0)); break; } fprintf(stderr, "zv kind %d\n", e->k); abort();
    }
    e->z = keep(r);
    return r;
}
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void z3Init() {
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(Z, zerr);
    F64 = Z3_mk_fpa_sort_double(Z); Z3_inc_ref(Z, (Z3_ast)F64);
    F32 = Z3_mk_fpa_sort_single(Z); Z3_inc_ref(Z, (Z3_ast)F32);
    RNE = keep(Z3_mk_fpa_rne(Z)); RTZ = keep(Z3_mk_fpa_rtz(Z)); RTP = keep(Z3_mk_fpa_rtp(Z)); RTN = keep(Z3_mk_fpa_rtn(Z)); RNA = keep(Z3_mk_fpa_rna(Z));
    for (unsigned w = 1; w <= 64; w++) Z3_inc_ref(Z, (Z3_ast)bvs(w));
    zs = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, zs);
    zsf = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FPBV"));
    Z3_solver_inc_ref(Z, zsf);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 80);
    parFull = Z3_mk_params(Z); Z3_params_inc_ref(Z, parFull);
    Z3_params_set_uint(Z, parFull, Z3_mk_string_symbol(Z, "timeout"), qTimeout);
    tacBv = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, tacBv);
    tacFp = Z3_mk_tactic(Z, "qffpbv"); Z3_tactic_inc_ref(Z, tacFp);
    Z3_solver_set_params(Z, zs, p); Z3_solver_set_params(Z, zsf, p);
    // warm up
    Z3_ast x = Z3_mk_const(Z, Z3_mk_string_symbol(Z, "warm"), bvs(16));
    Z3_solver_push(Z, zs);
    Z3_solver_assert(Z, zs, Z3_mk_bvult(Z, x, bvc(16, 10)));
    Z3_solver_check(Z, zs);
    Z3_solver_pop(Z, zs, 1);
}
static Z3_ast domConstraint(int i) {
    VarInfo &v = g_vars[i];
    if (v.dom.n == 1 && v.dom.lo[0] == 0 && v.dom.hi[0] == M(v.w)) return 0;
    Z3_ast x = zv(v.e), o[RS_MAX];
    for (int j = 0; j < v.dom.n; j++) {
        Z3_ast t[2] = {Z3_mk_bvule(Z, bvc(v.w, v.dom.lo[j]), x), Z3_mk_bvule(Z, x, bvc(v.w, v.dom.hi[j]))};
        o[j] = v.dom.lo[j] == v.dom.hi[j] ? Z3_mk_eq(Z, x, bvc(v.w, v.dom.lo[j])) : Z3_mk_and(Z, 2, t);
    }
    return v.dom.n == 1 ? o[0] : Z3_mk_or(Z, v.dom.n, o);
}
// exact set of variables of an expression (memoized through a visited epoch)
static void collectVars(E e, std::unordered_set<E> &seen, std::vector<int> &vars) {
    if (!e->vm || !seen.insert(e).second) return;
    if (e->k == VAR) { vars.push_back((int)e->x); return; }
    if (e->a) collectVars(e->a, seen, vars);
    if (e->b) collectVars(e->b, seen, vars);
    if (e->c) collectVars(e->c, seen, vars);
}
// model search for queries the solver gives up on: hill climbing over the conditions from the
// current path's inputs. Only ever yields a witness (checked by evaluation), never "unsat".
static u64 srnd = 88172645463325252ull;
static u64 rnd() { srnd ^= srnd << 13; srnd ^= srnd >> 7; srnd ^= srnd << 17; return srnd; }
static bool searchModel(std::vector<E> &cs, std::vector<int> &vars, std::vector<std::pair<int, u64>> &mv, bool fp) {
    if (vars.empty()) return false;
    std::unordered_set<E> seen; std::vector<E> nodes, st(cs.begin(), cs.end());
    std::vector<u64> consts;
    while (!st.empty()) {
        E e = st.back(); st.pop_back();
        if (!seen.insert(e).second) continue;
        if (e->isC()) { if (consts.size() < 4000) consts.push_back(e->fp() ? e->x : e->x); continue; }
        if (e->vm) nodes.push_back(e);
        if (e->a) st.push_back(e->a);
        if (e->b) st.push_back(e->b);
        if (e->c) st.push_back(e->c);
    }
    if (nodes.size() > 20000) return false;
    std::sort(nodes.begin(), nodes.end(), [](E a, E b) { return a->id < b->id; });
    std::vector<u64> save(nodes.size()), cur, best;
    for (size_t i = 0; i < nodes.size(); i++) save[i] = nodes[i]->cv;
    std::vector<u64> vsave; for (int v : vars) vsave.push_back(g_vars[v].val);
    cur = vsave; best = cur;
    auto eval = [&](std::vector<u64> &vals) {
        for (size_t i = 0; i < vars.size(); i++) g_vars[vars[i]].val = vals[i];
        for (E e : nodes) e->cv = expr_eval(e);
        int bad = 0; for (E c : cs) bad += !(c->cv & 1);
        return bad;
    };
    double t0 = nowS(); double lim = qTimeout > 4000 ? 1.0 : fp ? 0.25 : 0.05; int bb = eval(best); bool ok = bb == 0; srnd = 88172645463325252ull ^ cs[0]->h;
    for (u64 it = 0; !ok; it++) {
        if ((it & 15) == 0 && nowS() - t0 > lim) break;
        cur = best;
        int nm = 1 + rnd() % 3; if (it % 97 == 96) nm = vars.size();
        for (int j = 0; j < nm; j++) {
            size_t i = rnd() % vars.size(); VarInfo &v = g_vars[vars[i]]; u64 x = cur[i], m = M(v.w);
            switch (rnd() % 7) {
            case 0: x = (x + 1 + rnd() % 4) & m; break;
            case 1: x = (x - 1 - rnd() % 4) & m; break;
            case 2: x ^= 1ull << rnd() % v.w; break;
            case 3: { int d = rnd() % v.dom.n; u64 n = v.dom.hi[d] - v.dom.lo[d]; x = v.dom.lo[d] + (n == ~0ull ? rnd() : rnd() % (n + 1)); break; }
            case 4: { int d = rnd() % v.dom.n; x = rnd() & 1 ? v.dom.lo[d] : v.dom.hi[d]; break; }
            case 5: if (!consts.empty()) x = consts[rnd() % consts.size()] + (rnd() % 3) - 1; x &= m; break;
            case 6: if (v.isf) { double d = (double)(i64)(rnd() % 2001) - 1000; if (rnd() & 1) d /= 1 << rnd() % 20; memcpy(&x, &d, 8); } else x = cur[rnd() % vars.size()] & m; break;
            }
            if (rs_has(&v.dom, x)) cur[i] = x;
        }
        int b = eval(cur);
        if (b == 0) { best = cur; ok = true; }
        else if (b < bb || (b == bb && (rnd() & 1))) { bb = b; best = cur; }
    }
    for (size_t i = 0; i < vars.size(); i++) g_vars[vars[i]].val = vsave[i];
    for (size_t i = 0; i < nodes.size(); i++) nodes[i]->cv = save[i];
    if (ok) for (size_t i = 0; i < vars.size(); i++) mv.push_back({vars[i], best[i]});
    return ok;
}
// decides slice + goal; returns 1 sat (model in mv), 0 unsat, -1 unknown
static int solve(std::vector<E> &cs, std::vector<std::pair<int, u64>> &mv) {
    u64 h1 = 0, h2 = 0; bool fp = false;
    for (E c : cs) { u64 a = mixh(0x1111, c->h), b = mixh(0x2222, c->h * 0x9e3779b97f4a7c15ull); h1 += a; h2 += b; fp |= c->hasfp; }
    u32 ix = (u32)(h1 & (CACHE_N - 1));
    for (int p = 0; p < 16; p++) {
        CEnt &c = cache[(ix + p) & (CACHE_N - 1)];
        u32 st = __atomic_load_n(&c.st, __ATOMIC_ACQUIRE);
        if (!st) break;
        if (c.h1 == h1 && c.h2 == h2) {
            if (st == 2) { INC(cached); return 0; }
            if (st == 3) {
                u32 *m = cmodels + c.off; u32 n = *m++;
                for (u32 i = 0; i < n; i++) { int v = (int)m[0]; u64 x = (u64)m[1] | (u64)m[2] << 32; m += 3; if (v < g_nvars) mv.push_back({v, x}); }
                INC(cachedsat);
                return 1;
            }
        }
    }
    double t0 = nowS();
    std::unordered_set<E> seen; std::vector<int> vars;
    for (E c : cs) collectVars(c, seen, vars);
    int res = -1;
    for (int stage = fp ? 1 : 0; stage < 2 && res < 0; stage++) {
        // a short incremental attempt, then witness search, then a fresh bit-blasting solver with the full budget
        Z3_solver s = stage ? Z3_mk_solver_from_tactic(Z, fp ? tacFp : tacBv) : fp ? zsf : zs;
        if (stage) { Z3_solver_inc_ref(Z, s); Z3_solver_set_params(Z, s, parFull); } else Z3_solver_push(Z, s);
        for (int v : vars) if (Z3_ast d = domConstraint(v)) Z3_solver_assert(Z, s, d);
        for (E c : cs) Z3_solver_assert(Z, s, zb(c));
        Z3_lbool r = Z3_solver_check(Z, s);
        INC(z3calls);
        if (r == Z3_L_TRUE) {
            res = 1;
            Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m);
            for (int v : vars) {
                Z3_ast o;
                if (Z3_model_eval(Z, m, zv(g_vars[v].e), true, &o)) { uint64_t x = 0; if (Z3_get_numeral_uint64(Z, o, &x)) mv.push_back({v, x}); }
            }
            Z3_model_dec_ref(Z, m);
        } else if (r == Z3_L_FALSE) res = 0;
        if (stage) Z3_solver_dec_ref(Z, s); else Z3_solver_pop(Z, s, 1);
        if (stage == (fp ? 1 : 0) && res < 0 && searchModel(cs, vars, mv, fp)) { res = 1; INC(searched); }
    }
    double dt = nowS() - t0;
    ADDS(solver_us, dt * 1e6);
    if (g_trace && dt > 0.5) { fprintf(stderr, "SLOW %.2fs res %d fp %d:", dt, res, fp); for (E c : cs) fprintf(stderr, "\n   %s", expr_str(c, 12)); fprintf(stderr, "\n"); }
    if (res >= 0) {
        u32 off = 0; bool ok = true;
        if (res == 1) {
            u64 need = 1 + 3 * mv.size(); u64 t = __atomic_fetch_add(cmodTop, need, __ATOMIC_RELAXED);
            if (t + need > CMOD_SZ / 4) ok = false;
            else { off = (u32)t; u32 *m = cmodels + off; *m++ = (u32)mv.size(); for (auto &x : mv) { *m++ = (u32)x.first; *m++ = (u32)x.second; *m++ = (u32)(x.second >> 32); } }
        }
        if (ok)
            for (int p = 0; p < 16; p++) {
                CEnt &c = cache[(ix + p) & (CACHE_N - 1)]; u32 z = 0;
                if (__atomic_compare_exchange_n(&c.st, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) { c.h1 = h1; c.h2 = h2; c.off = off; __atomic_store_n(&c.st, res == 1 ? 3 : 2, __ATOMIC_RELEASE); break; }
            }
    }
    return res;
}
static double solveLimit = 3; static bool jobCont;
static void finishPath() {
    __rsx_active = 0;
    struct itimerval it = {}; setitimer(ITIMER_PROF, &it, 0);
    size_t n = evs->size();
    if (!jobCont) { INC(paths); ADDS(events, n); }
    if (g_pathlog) { FILE *f = fopen(g_pathlog, "a"); fprintf(f, "scn %d ev %zu prefix %u: ", curScn, n, jobPrefix); for (int v = 0; v < g_nvars; v++) fprintf(f, "%llu,", (long long)g_vars[v].val); fprintf(f, "\n"); fclose(f); }
    if (n > ST.maxevents) ST.maxevents = n;
    if (!n) INC(plainpaths);
    double t0 = nowS();
    slot->status = PS_SOLVING;
    expr_reset_ranges();
    std::vector<u64> masks(n);
    for (size_t i = 0; i < n; i++) masks[i] = (*evs)[i].cond->vm;
    u8 *wp = slot->data, *we = (u8 *)slot + SLOT_SZ;
    u32 nj = 0;
    for (size_t i = jobPrefix; i < n && i < maxEvents; i++) {
        Ev &e = (*evs)[i];
        if (e.kind == EV_ASSUME) continue;
        if (nowS() - t0 > solveLimit) {   // out of time: the rest of this path's queries become a job of their own
            if (i == jobPrefix) { ADDS(solve_cut, n - i); break; }
            size_t need = 32 + 8 * (size_t)g_nvars;
            if (wp + need > we) { ADDS(solve_cut, n - i); break; }
            u64 *q = (u64 *)wp;
            q[0] = i; q[1] = e.hashBefore; q[2] = (u64)g_nvars | 1ull << 33; q[3] = 0;
            for (int v = 0; v < g_nvars; v++) q[4 + v] = g_vars[v].val;
            wp += need; nj++;
            break;
        }
        INC(flips);
        E goal = e.goal;
        std::vector<E> cs{goal};
        bool chain = e.kind == EV_CONC && i == jobPrefix && !jobExcl->empty();
        if (chain) for (E x : *exclConds) if (!x->isC()) cs.push_back(x);
        u64 m = goal->vm; std::vector<char> in(i, 0); bool ch = true;
        while (ch) { ch = false; for (size_t j = 0; j < i; j++) if (!in[j] && (masks[j] & m)) { in[j] = 1; if (masks[j] & ~m) { m |= masks[j]; ch = true; } } }
        for (size_t j = 0; j < i; j++) if (in[j]) cs.push_back((*evs)[j].cond);
        std::vector<std::pair<int, u64>> mv;
        int r = solve(cs, mv);
        if (r == 0) { INC(unsat); continue; }
        if (r < 0) { INC(unknown); continue; }
        INC(sat);
        bool conc = e.kind == EV_CONC;
        size_t nx = conc ? 1 + (chain ? jobExcl->size() : 0) : 0;
        size_t need = 32 + 8 * (size_t)g_nvars + 8 * nx;
        if (wp + need > we) { INC(jobs_lost); continue; }
        u64 *q = (u64 *)wp;
        q[0] = conc ? i : i + 1; q[1] = conc ? e.hashBefore : mixh(e.hashBefore, e.base->h * 2 + !(e.base->cv & 1)); q[3] = nx; q[2] = (u64)g_nvars | (e.kind == EV_CHECK || e.kind == EV_INB ? 1ull << 32 : 0);
        for (int v = 0; v < g_nvars; v++) q[4 + v] = g_vars[v].val;
        for (auto &x : mv) q[4 + x.first] = x.second;
        if (conc) { u64 *t = q + 4 + g_nvars; *t++ = e.val; if (chain) for (u64 x : *jobExcl) *t++ = x; }
        wp += need; nj++;
    }
    slot->njobs = nj; slot->used = (u32)(wp - slot->data);
    if (g_trace) fprintf(stderr, "path: %zu events, %u new jobs\n", n, nj);
}

// ------------------------------------------------------------------ API
static u64 rsDefault(const RSet &d, unsigned w) {
    if (rs_has(&d, 0)) return 0;
    u64 best = d.lo[0];
    (void)w;
    return best;
}
static int newVar(const char *name, unsigned w, const RSet &dom, bool sgn, bool isf) {
    int i = g_nvars++;
    if (g_nvars > 4000) violation("too many symbolic variables in the scenario");
    VarInfo &v = g_vars[i];
    snprintf(v.name, sizeof v.name, "%s", name);
    v.w = (u8)w; v.dom = v.cur = dom; v.sgn = sgn; v.isf = isf;
    v.val = (size_t)i < jobIn->size() ? (*jobIn)[i] : rsDefault(dom, w);
    if (!rs_has(&dom, v.val)) v.val = rsDefault(dom, w);
    mkVar(i);
    return i;
}
extern "C" {
int32_t rsx_sym_i32(const char *name, int32_t lo, int32_t hi) {
    RSet d; d.n = 0;
    if (lo >= 0 || hi < 0) { d.n = 1; d.lo[0] = (u32)lo; d.hi[0] = (u32)hi; }
    else { d.n = 2; d.lo[0] = 0; d.hi[0] = (u32)hi; d.lo[1] = (u32)lo; d.hi[1] = 0xffffffffu; }
    if (hi == -1 || (d.n == 2 && d.hi[0] + 1 == d.lo[1])) { if (d.n == 2) { d.n = 1; d.hi[0] = 0xffffffffu; } }
    if (lo == hi) { RET = 0; return lo; }
    __rsx_active = 1;
    int i = newVar(name, 32, d, true, false);
    RET = g_vars[i].e;
    return (int32_t)g_vars[i].val;
}
uint64_t rsx_sym_bits(const char *name, int kind) {
    RSet d; d.n = 1; d.lo[0] = 0; d.hi[0] = ~0ull;
    if (kind == 0) { d.n = 3; d.lo[0] = 0; d.hi[0] = 0x7ff0000000000000ull; d.lo[1] = d.hi[1] = 0x7ff8000000000000ull; d.lo[2] = 1ull << 63; d.hi[2] = 0xfff0000000000000ull; }
    __rsx_active = 1;
    int i = newVar(name, 64, d, false, kind == 0);
    RET = g_vars[i].e;
    return g_vars[i].val;
}
uint16_t rsx_sym_u16(const char *name, int n, const uint16_t *r) {
    RSet d; d.n = 0;
    std::vector<std::pair<u64, u64>> v;
    for (int i = 0; i < n; i++) v.push_back({r[2 * i], r[2 * i + 1]});
    std::sort(v.begin(), v.end());
    bool over = false;
    for (auto &x : v) {
        if (d.n && x.first <= d.hi[d.n - 1] + 1) { if (x.second > d.hi[d.n - 1]) d.hi[d.n - 1] = x.second; continue; }
        if (d.n == RS_MAX) { over = true; d.hi[d.n - 1] = x.second; continue; }
        d.lo[d.n] = x.first; d.hi[d.n] = x.second; d.n++;
    }
    __rsx_active = 1;
    if (d.n == 1 && d.lo[0] == d.hi[0]) { RET = 0; return (uint16_t)d.lo[0]; }
    int i = newVar(name, 16, d, false, false);
    if (over) {  // more intervals than the range domain holds: add the exact set as an assumption
        E e = g_vars[i].e, c = mkC(1, 0);
        std::vector<std::pair<u64, u64>> mg;
        for (auto &x : v) { if (!mg.empty() && x.first <= mg.back().second + 1) { if (x.second > mg.back().second) mg.back().second = x.second; } else mg.push_back(x); }
        bool ok = false;
        for (auto &x : mg) { c = mkOr(c, mkAnd(mkUle(mkC(16, x.first), e), mkUle(e, mkC(16, x.second)))); if (e->cv >= x.first && e->cv <= x.second) ok = true; }
        if (!ok) { INC(silent); publishInputs(); finishPath(); slot->status = PS_STOP; childExit(); }
        addEvent(c, EV_ASSUME, 0);
    }
    RET = g_vars[i].e;
    return (uint16_t)g_vars[i].val;
}
void rsx_concrete_region(void *p, size_t n) { crLo = (u64)p; crHi = crLo + n; }
void rsx_stop(void) { RET = 0; INC(silent); publishInputs(); finishPath(); slot->status = PS_STOP; childExit(); }
void rsx_assume(int c) {
    E s = ARGS[0]; RET = 0;
    if (!s || s->isC() || s->cv != (u32)c) { if (!c) rsx_stop(); return; }
    E b = mkNot(mkEq(s, mkC(s->w, 0)));
    if (c) addEvent(b, EV_ASSUME, 0);
    else { decideK(b, EV_BR); rsx_stop(); }   // its flip leads to inputs that satisfy the assumption
}
void rsx_check(int c, const char *msg) {
    E s = ARGS[0]; RET = 0;
    INC(checks);
    if (!c) violation(msg);
    if (!s || s->isC() || s->cv != (u32)c) return;
    addEvent(mkNot(mkEq(s, mkC(s->w, 0))), EV_CHECK, 0);
    INC(nevchecks);
}
void rsx_check_known(int c, const char *id) {
    E s = ARGS[0]; RET = 0;
    if (!c) { for (int i = 0; i < 64; i++) { if (!shm->known[i][0]) strncpy(shm->known[i], id, 63); if (!strcmp(shm->known[i], id)) break; } return; }
    if (!s || s->isC() || s->cv != (u32)c) return;
    addEvent(mkNot(mkEq(s, mkC(s->w, 0))), EV_BR, 0);
}
int32_t rsx_conc_i32(int32_t v) { E s = ARGS[0]; RET = 0; if (s && s->cv == (u32)v) concretize(s); RET = 0; return v; }
uint16_t rsx_conc_u16(uint16_t v) { E s = ARGS[0]; RET = 0; if (s && s->cv == v) concretize(s); RET = 0; return v; }
double rsx_conc_f64(double v) { E s = ARGS[0]; RET = 0; if (s && s->cv == dbits(v)) concretize(s); RET = 0; return v; }
void rsx_fail(const char *msg) { RET = 0; violation(msg); }
void rsx_note(const char *m) { RET = 0; if (slot) { int k = snprintf(slot->log + slot->loglen, sizeof slot->log - slot->loglen, "%s\n", m); if (slot->loglen + k < (int)sizeof slot->log - 1) slot->loglen += k; } if (g_trace) fprintf(stderr, "NOTE %s\n", m); }
int rsx_is_symbolic_run(void) { RET = 0; return 1; }
void rsx_gc_arm(int maxp, void (*fn)(void)) {
    gcVal = rsx_sym_i32("gcpoint", 0, maxp);
    gcVar = RET; gcMax = maxp; gcN = 0; gcFn = fn;
    RET = 0;
}
}

// ------------------------------------------------------------------ coordinator
struct Job { u32 prefix; u64 hash; std::vector<u64> in; int depth; bool hot; std::vector<u64> excl; std::vector<u64> par; bool cont = false; };
struct Viol { int scn; std::string msg, kind; std::vector<std::string> names; std::vector<u64> vals; std::vector<int> ws, ss; std::string log; };
static void onProf(int) {
    // still running the scenario: report a hang
    if (slot && slot->status == PS_RUNNING) { publishInputs(); slot->status = PS_TIMEOUT; snprintf(slot->msg, sizeof slot->msg, "scenario did not terminate within the time limit"); }
    _exit(0);
}
static void onCrash(int sig) {
    if (slot && slot->status == PS_RUNNING) { __rsx_active = 0; publishInputs(); slot->status = PS_FAIL; snprintf(slot->msg, sizeof slot->msg, "crash: signal %d (%s)", sig, sig == SIGABRT ? "assertion failure/abort" : sig == SIGSEGV ? "segmentation fault" : "fatal signal"); }
    _exit(0);
}
static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
static void pathSetup(const Job &j, int scn, Slot *sl) {
    curScn = scn; slot = sl;
    slot->status = PS_RUNNING; slot->njobs = 0; slot->used = 0; slot->nvars = 0; slot->loglen = 0; slot->msg[0] = 0;
    jobPrefix = j.prefix; jobHash = j.hash; jobPar = new std::vector<u64>(j.par);
    jobIn = new std::vector<u64>(j.in); jobExcl = new std::vector<u64>(j.excl); exclConds = new std::vector<E>;
    evs = new std::vector<Ev>; evset = new std::unordered_set<E>; prov = new std::unordered_map<E, u64>;
    pathHash = 0x1234;
    expr_decide = decideBr;
}
extern "C" int rsx_main(int argc, char **argv, int nscn, const char **names, const int *timeouts, void (*run)(int)) {
    __rsx_reg_global((void *)(*__ctype_b_loc() - 128), 384 * 2);
    __rsx_reg_global((void *)(*__ctype_tolower_loc() - 128), 384 * 4);
    __rsx_reg_global((void *)(*__ctype_toupper_loc() - 128), 384 * 4);
    double budget = 30; const char *outf = 0, *only = 0; int workers = 8; const char *oneInputs = 0; u64 seed = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--time") budget = atof(argv[++i]);
        else if (a == "--out") outf = argv[++i];
        else if (a == "--only") only = argv[++i];
        else if (a == "--workers") workers = atoi(argv[++i]);
        else if (a == "--one") oneInputs = argv[++i];
        else if (a == "--qtimeout") qTimeout = atoi(argv[++i]);
        else if (a == "--seed") seed = strtoull(argv[++i], 0, 0);
        else if (a == "--trace") g_trace = true;
    }
    g_oplog = getenv("RSX_OPLOG"); g_pathlog = getenv("RSX_PATHLOG"); g_divlog = getenv("RSX_DIVLOG");
    double t00 = nowS();
    expr_init();
    warmTabs();
    ptab = (Page **)mmap(0, sizeof(Page *) * PT_N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    cache = (CEnt *)mmap(0, sizeof(CEnt) * CACHE_N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cmodels = (u32 *)mmap(0, CMOD_SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cmodTop = (u64 *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    covLo = (u64)&__executable_start; covN = (u64)&etext - covLo;
    covMap = (u8 *)mmap(0, covN / 16 + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Slot *> slots;
    for (int i = 0; i < workers; i++) slots.push_back((Slot *)mmap(0, SLOT_SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    z3Init();
    std::vector<char> sel(nscn, 1);
    if (only) for (int i = 0; i < nscn; i++) sel[i] = 0;
    if (only) { std::string o = only; size_t p = 0; while (p <= o.size()) { size_t q = o.find(',', p); if (q == std::string::npos) q = o.size(); std::string nm = o.substr(p, q - p); for (int i = 0; i < nscn; i++) if (nm == names[i]) sel[i] = 1; p = q + 1; } }
    if (oneInputs) {  g_one = true; // run a single path in this process (debugging)
        Job j{0, 0, {}, 0, false, {}, {}};
        for (const char *p = oneInputs; *p;) { char *e; j.in.push_back(strtoull(p, &e, 0)); if (*e == ',') e++; if (e == p) break; p = e; }
        for (int i = 0; i < nscn; i++) if (sel[i]) {
            pathSetup(j, i, slots[0]);
            run(i);
            finishPath();
            fprintf(stderr, "done events=%zu drops=%llu mism=%llu stale=%llu symops=%llu\n", evs->size(), (long long)ST.drops, (long long)ST.mismatches, (long long)ST.stale, (long long)ST.symops);
            return 0;
        }
        return 0;
    }
    std::vector<std::deque<Job>> q(nscn);
    std::vector<int> running(nscn, 0), nviol(nscn, 0); std::vector<char> ended(nscn, 0);
    std::vector<double> tfirst(nscn, 0), tlast(nscn, 0);
    for (int i = 0; i < nscn; i++) if (sel[i]) q[i].push_back({0, 0, {}, 0, false, {}, {}});
    std::vector<pid_t> pid(workers, 0); std::vector<int> wscn(workers, -1); std::vector<Job> wjob(workers);
    std::vector<Viol> viols;
    std::vector<std::vector<Viol>> samples(nscn); std::vector<int> nok(nscn, 0); u64 sampleRnd = seed * 2 + 1;
    int rr = 0; bool timeup = false; u64 pick = 0; std::vector<double> used(nscn, 0), wstart(workers, 0);
    for (;;) {
        int nrun = 0;
        for (int w = 0; w < workers; w++) if (pid[w]) nrun++;
        if (!timeup && nowS() - t00 > budget) timeup = true;
        if (!timeup)
            for (int w = 0; w < workers; w++) {
                if (pid[w]) continue;
                int s = -1;
                double bestT = 0;   // the scenario that used the least worker time so far runs next
                for (int k = 0; k < nscn; k++) { int c = (rr + k) % nscn; if (!q[c].empty() && nviol[c] < 3) { double t = used[c] + running[c] * 0.05; if (s < 0 || t < bestT) { s = c; bestT = t; } } }
                if (s < 0) break;
                rr = s + 1;
                wstart[w] = nowS();
                Job j;
                if (q[s].front().hot) { j = std::move(q[s].front()); q[s].pop_front(); }
                else if ((++pick & 3) != 0) { j = std::move(q[s].back()); q[s].pop_back(); }
                else { j = std::move(q[s].front()); q[s].pop_front(); }
                wjob[w] = j; wscn[w] = s;
                if (!tfirst[s]) tfirst[s] = nowS();
                fflush(0);
                pid_t p = fork();
                if (p < 0) { perror("fork"); timeup = true; break; }
                if (!p) {
                    if (!g_trace) { int fd = open("/dev/null", O_RDWR); dup2(fd, 1); dup2(fd, 2); dup2(fd, 0); }
                    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
                    rl.rlim_cur = rl.rlim_max = 6ull << 30; setrlimit(RLIMIT_AS, &rl);
                    rl.rlim_cur = rl.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_AS, &rl);
                    static char altstk[65536]; stack_t ss = {}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, 0);
                    struct sigaction sa = {}; sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK;
                    for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(sg, &sa, 0);
                    sa.sa_handler = onProf; sigaction(SIGPROF, &sa, 0);
                    struct itimerval it = {}; it.it_value.tv_sec = timeouts[s] ? timeouts[s] : 20; setitimer(ITIMER_PROF, &it, 0);
                    pathSetup(j, s, slots[w]); jobCont = j.cont;
                    double left = t00 + budget + 3 - nowS(); if (left < solveLimit) solveLimit = left;
                    double r0 = nowS();
                    run(s);
                    ADDS(run_us, (nowS() - r0) * 1e6);
                    publishInputs();
                    finishPath();
                    slot->status = PS_OK;
                    _exit(0);
                }
                pid[w] = p; running[s]++; nrun++;
            }
        if (!nrun) {
            bool more = false;
            for (int i = 0; i < nscn; i++) if (!q[i].empty() && nviol[i] < 3) more = true;
            if (!more || timeup) break;
            continue;
        }
        int stt; pid_t p;
        if (timeup && nowS() - t00 > budget + 5) { for (int w = 0; w < workers; w++) if (pid[w]) kill(pid[w], SIGKILL); }
        p = waitpid(-1, &stt, timeup || true ? WNOHANG : 0);
        if (p <= 0) {
            // block briefly; SIGCHLD-less wait keeps the loop simple
            struct timespec ts = {0, 200000}; nanosleep(&ts, 0);
            continue;
        }
        for (int w = 0; w < workers; w++) {
            if (pid[w] != p) continue;
            pid[w] = 0;
            int s = wscn[w]; Slot *sl = slots[w];
            running[s]--; tlast[s] = nowS(); used[s] += tlast[s] - wstart[w] + 0.0005;
            int st = sl->status;
            bool killed = WIFSIGNALED(stt);
            if (st == PS_FAIL || st == PS_TIMEOUT || (killed && st == PS_RUNNING && !timeup)) {
                shm->st[s].paths++;
                nviol[s]++;
                Viol v; v.scn = s; v.kind = st == PS_TIMEOUT ? "timeout" : st == PS_FAIL ? "fail" : "killed"; v.msg = sl->msg[0] ? sl->msg : "process killed";
                v.log.assign(sl->log, sl->loglen);
                int nv = sl->nvars;
                for (int i = 0; i < nv; i++) { v.names.push_back(sl->vnames[i]); v.vals.push_back(sl->vvals[i]); v.ws.push_back(sl->vw[i]); v.ss.push_back(sl->vs[i]); }
                if (st != PS_FAIL && st != PS_TIMEOUT) { v.vals = wjob[w].in; v.names.assign(v.vals.size(), "?"); v.ws.assign(v.vals.size(), 64); v.ss.assign(v.vals.size(), 0); }
                viols.push_back(v);
            } else if (killed) shm->st[s].solve_cut++;
            if (st == PS_OK) {   // passing paths kept as samples: the first one and then a random one
                int k = nok[s]++; sampleRnd = sampleRnd * 6364136223846793005ull + 1442695040888963407ull;
                int at = k < 2 ? k : (sampleRnd >> 33) % (u64)(k + 1) < 1 ? 1 : -1;
                if (at >= 0) {
                    Viol v; v.scn = s;
                    for (int i = 0; i < sl->nvars; i++) { v.names.push_back(sl->vnames[i]); v.vals.push_back(sl->vvals[i]); v.ws.push_back(sl->vw[i]); v.ss.push_back(sl->vs[i]); }
                    if ((int)samples[s].size() <= at) samples[s].push_back(v); else samples[s][at] = v;
                }
            }
            if (st == PS_OK || st == PS_STOP) {
                u8 *r = sl->data;
                for (u32 i = 0; i < sl->njobs; i++) {
                    u64 *d = (u64 *)r; u32 nv = (u32)d[2]; bool hot = d[2] >> 32 & 1;
                    u32 nx = (u32)d[3];
                    Job j{(u32)d[0], d[1], std::vector<u64>(d + 4, d + 4 + nv), wjob[w].depth + 1, hot, std::vector<u64>(d + 4 + nv, d + 4 + nv + nx), {}}; j.cont = d[2] >> 33 & 1; if (g_divlog) for (int z = 0; z < sl->nvars; z++) j.par.push_back(sl->vvals[z]);
                    r += 32 + 8 * (nv + nx);
                    if (hot) q[s].push_front(std::move(j)); else q[s].push_back(std::move(j));
                }
            }
        }
    }
    FILE *f = outf ? fopen(outf, "w") : stdout;
    fprintf(f, "{\"wall_s\":%.2f,\"scenarios\":[", nowS() - t00);
    bool first = true;
    for (int i = 0; i < nscn; i++) {
        if (!sel[i]) continue;
        Stats &x = shm->st[i];
        fprintf(f, "%s\n {\"name\":\"%s\",\"exhaustive\":%s,\"pending\":%zu,\"paths\":%llu,\"events\":%llu,\"maxevents\":%llu,\"flips\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cached\":%llu,\"z3_calls\":%llu,\"solver_s\":%.2f,\"run_s\":%.2f,\"checks\":%llu,\"symbolic_checks\":%llu,\"symops\":%llu,\"drops\":%llu,\"mismatches\":%llu,\"stale\":%llu,\"concretized\":%llu,\"truncated\":%llu,\"diverged\":%llu,\"assumed_away\":%llu,\"jobs_lost\":%llu,\"solve_cut\":%llu,\"violations\":%d,\"elapsed\":%.2f}",
                first ? "" : ",", names[i], q[i].empty() && !x.unknown && !x.drops && !x.truncated && !x.jobs_lost && !x.solve_cut && !running[i] && !x.mismatches && !x.diverged && !x.stale ? "true" : "false",
                q[i].size(), (long long)x.paths, (long long)x.events, (long long)x.maxevents, (long long)x.flips, (long long)x.sat, (long long)x.unsat, (long long)x.unknown, (long long)(x.cached + x.cachedsat), (long long)x.z3calls, x.solver_us * 1e-6, x.run_us * 1e-6, (long long)x.checks, (long long)x.nevchecks, (long long)x.symops, (long long)x.drops, (long long)x.mismatches, (long long)x.stale, (long long)x.concretized, (long long)x.truncated, (long long)x.diverged, (long long)x.silent, (long long)x.jobs_lost, (long long)x.solve_cut, nviol[i], tlast[i] - tfirst[i]);
        first = false;
    }
    fprintf(f, "],\n\"dropped\":{");
    first = true;
    for (int i = 0; i < 64 && shm->dropnames[i][0]; i++) { fprintf(f, "%s\"%s\":%u", first ? "" : ",", jesc(shm->dropnames[i]).c_str(), shm->dropcnt[i]); first = false; }
    fprintf(f, "},\n\"known\":[");
    first = true;
    for (int i = 0; i < 64 && shm->known[i][0]; i++) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(shm->known[i]).c_str()); first = false; }
    fprintf(f, "],\n\"violations\":[");
    first = true;
    for (auto &v : viols) {
        fprintf(f, "%s\n {\"scenario\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"log\":\"%s\",\"inputs\":[", first ? "" : ",", names[v.scn], v.kind.c_str(), jesc(v.msg).c_str(), jesc(v.log).c_str());
        for (size_t i = 0; i < v.vals.size(); i++) fprintf(f, "%s[\"%s\",%llu,%d,%d]", i ? "," : "", jesc(v.names[i]).c_str(), (unsigned long long)v.vals[i], v.ws[i], v.ss[i]);
        fprintf(f, "]}");
        first = false;
    }
    fprintf(f, "],\n\"samples\":[");
    first = true;
    for (auto &vs : samples) for (auto &v : vs) {
        fprintf(f, "%s\n {\"scenario\":\"%s\",\"inputs\":[", first ? "" : ",", names[v.scn]);
        for (size_t i = 0; i < v.vals.size(); i++) fprintf(f, "%s[\"%s\",%llu,%d,%d]", i ? "," : "", jesc(v.names[i]).c_str(), (unsigned long long)v.vals[i], v.ws[i], v.ss[i]);
        fprintf(f, "]}");
        first = false;
    }
    fprintf(f, "],\n\"cov_base\":%llu,\"cov\":[", (unsigned long long)covLo);
    first = true;
    for (u64 i = 0; i < covN / 16; i++) if (covMap[i]) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)i * 16); first = false; }
    fprintf(f, "]}\n");
    if (outf) fclose(f); else fflush(f);
    return 0;
}
