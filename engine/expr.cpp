#include "expr.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <x86intrin.h>
#include <initializer_list>

VarInfo *g_vars; int g_nvars;
bool (*expr_decide)(E);
static u32 g_epoch = 1;
static u32 g_vepoch[64];   // last refinement of the variables with this mask bit
static bool rangeFresh(E e) {
    if (!e->repoch) return false;
    if (e->repoch == g_epoch) return true;
    u64 m = e->vm;
    while (m) { if (g_vepoch[__builtin_ctzll(m)] > e->repoch) return false; m &= m - 1; }
    e->repoch = g_epoch;
    return true;
}
static u32 g_nid;
static u8 *ar, *arEnd;
void *arena_alloc(size_t n) {
    n = (n + 15) & ~15ull;
    if (ar + n > arEnd) {
        size_t sz = n > (4u << 20) ? n : (4u << 20);
        ar = (u8 *)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (ar == MAP_FAILED) abort();
        arEnd = ar + sz;
    }
    void *p = ar;
    ar += n;
    return p;
}
#define HB 17
static E *htab;
void expr_init() {
    htab = (E *)mmap(0, sizeof(E) << HB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_vars = (VarInfo *)mmap(0, sizeof(VarInfo) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 31; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    return h;
}

// ---------------------------------------------------------------- ranges
static RSet rs_one(u64 l, u64 h) { RSet r; r.n = 1; r.lo[0] = l; r.hi[0] = h; return r; }
static RSet rs_full(unsigned w) { return rs_one(0, M(w)); }
static void rs_add(RSet &r, u64 l, u64 h) {  // keep sorted, disjoint, merged
    u64 L[RS_MAX + 1], H[RS_MAX + 1]; int n = 0; bool put = false;
    for (int i = 0; i < r.n; i++) {
        if (!put && l < r.lo[i]) { L[n] = l; H[n++] = h; put = true; }
        L[n] = r.lo[i]; H[n++] = r.hi[i];
    }
    if (!put) { L[n] = l; H[n++] = h; }
    int m = 0;
    for (int i = 1; i < n; i++) {
        if (L[i] <= H[m] || L[i] == H[m] + 1) { if (H[i] > H[m]) H[m] = H[i]; }
        else { m++; L[m] = L[i]; H[m] = H[i]; }
    }
    n = m + 1;
    if (n > RS_MAX) {
        int best = 0; u64 bg = ~0ull;
        for (int i = 0; i + 1 < n; i++) { u64 g = L[i + 1] - H[i]; if (g < bg) { bg = g; best = i; } }
        H[best] = H[best + 1];
        for (int i = best + 1; i + 1 < n; i++) { L[i] = L[i + 1]; H[i] = H[i + 1]; }
        n--;
    }
    r.n = n;
    for (int i = 0; i < n; i++) { r.lo[i] = L[i]; r.hi[i] = H[i]; }
}
static RSet rs_inter(const RSet &a, const RSet &b) {
    RSet r; r.n = 0;
    for (int i = 0; i < a.n; i++)
        for (int j = 0; j < b.n; j++) {
            u64 l = a.lo[i] > b.lo[j] ? a.lo[i] : b.lo[j], h = a.hi[i] < b.hi[j] ? a.hi[i] : b.hi[j];
            if (l <= h) rs_add(r, l, h);
        }
    return r;
}
static RSet rs_union(const RSet &a, const RSet &b) {
    RSet r = a;
    for (int i = 0; i < b.n; i++) rs_add(r, b.lo[i], b.hi[i]);
    return r;
}
u64 rs_count(const RSet *r) { u64 c = 0; for (int i = 0; i < r->n; i++) { u64 d = r->hi[i] - r->lo[i]; if (d == ~0ull) return d; c += d + 1; } return c; }
bool rs_has(const RSet *r, u64 v) { for (int i = 0; i < r->n; i++) if (v >= r->lo[i] && v <= r->hi[i]) return true; return false; }
u64 rs_min(const RSet *r) { return r->lo[0]; }
u64 rs_max(const RSet *r) { return r->hi[r->n - 1]; }
i64 rs_smin(const RSet *r, unsigned w) {
    u64 sb = 1ull << (w - 1);
    for (int i = 0; i < r->n; i++) if (r->hi[i] >= sb) return SX(r->lo[i] >= sb ? r->lo[i] : sb, w);
    return (i64)r->lo[0];
}
i64 rs_smax(const RSet *r, unsigned w) {
    u64 sb = 1ull << (w - 1);
    for (int i = r->n - 1; i >= 0; i--) if (r->lo[i] < sb) return (i64)(r->hi[i] < sb ? r->hi[i] : sb - 1);
    return SX(r->hi[r->n - 1], w);
}
static RSet rs_signed(i64 lo, i64 hi, unsigned w) {
    u64 m = M(w);
    if (lo >= 0 || hi < 0) return rs_one((u64)lo & m, (u64)hi & m);
    RSet r = rs_one(0, (u64)hi);
    rs_add(r, (u64)lo & m, m);
    return r;
}
static RSet rs_shift(const RSet &a, u64 c, unsigned w) {
    u64 m = M(w); RSet r; r.n = 0;
    for (int i = 0; i < a.n; i++) {
        if (a.hi[i] - a.lo[i] == m) return rs_full(w);
        u64 l = (a.lo[i] + c) & m, h = (a.hi[i] + c) & m;
        if (l <= h) rs_add(r, l, h);
        else { rs_add(r, l, m); rs_add(r, 0, h); }
    }
    return r;
}
static double bd(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 db(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static float bf(u32 b) { float d; memcpy(&d, &b, 4); return d; }
static u32 fb(float d) { u32 b; memcpy(&b, &d, 4); return b; }
static double fval(unsigned w, u64 bits) { return w == 32 ? (double)bf((u32)bits) : bd(bits); }

struct FR { double lo, hi; bool nan, negz; };
static FR frange(E e, int depth = 0) {
    FR all{-INFINITY, INFINITY, true, true};
    if (depth > 40) return all;
    switch (e->k) {
    case FCONST: { double d = fval(e->w, e->x); if (d != d) return all; return {d, d, false, d == 0 && std::signbit(d)}; }
    case I2F: { const RSet *r = rangeOf(e->a); return {(double)rs_smin(r, 64), (double)rs_smax(r, 64), false, e->b != 0}; }
    case SI2F: { const RSet *r = rangeOf(e->a); return {(double)rs_smin(r, e->a->w), (double)rs_smax(r, e->a->w), false, false}; }
    case UI2F: { const RSet *r = rangeOf(e->a); return {(double)rs_min(r), (double)rs_max(r), false, false}; }
    case FADD: case FSUB: case FMUL: case FDIV: {
        if (e->w != 64) return all;
        FR a = frange(e->a, depth + 1), b = frange(e->b, depth + 1);
        if (a.nan || b.nan) return all;
        double v[4];
        if (e->k == FADD) { v[0] = v[1] = a.lo + b.lo; v[2] = v[3] = a.hi + b.hi; }
        else if (e->k == FSUB) { v[0] = v[1] = a.lo - b.hi; v[2] = v[3] = a.hi - b.lo; }
        else if (e->k == FMUL) { v[0] = a.lo * b.lo; v[1] = a.lo * b.hi; v[2] = a.hi * b.lo; v[3] = a.hi * b.hi; }
        else {
            if (b.lo <= 0 && b.hi >= 0) return all;
            v[0] = a.lo / b.lo; v[1] = a.lo / b.hi; v[2] = a.hi / b.lo; v[3] = a.hi / b.hi;
        }
        double lo = INFINITY, hi = -INFINITY;
        for (double d : v) { if (d != d) return all; if (d < lo) lo = d; if (d > hi) hi = d; }
        if (!std::isfinite(a.lo) || !std::isfinite(a.hi) || !std::isfinite(b.lo) || !std::isfinite(b.hi)) return all;
        return {lo, hi, false, lo <= 0 && hi >= 0};
    }
    case FNEG: { FR a = frange(e->a, depth + 1); return {-a.hi, -a.lo, a.nan, true}; }
    case FABS: { FR a = frange(e->a, depth + 1); double m = fmax(fabs(a.lo), fabs(a.hi)); double l = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0; return {l, m, a.nan, false}; }
    case FRND: {
        FR a = frange(e->a, depth + 1);
        double (*f)(double) = e->x == RND_FLOOR ? floor : e->x == RND_CEIL ? ceil : e->x == RND_TRUNC ? trunc : e->x == RND_NEAR_AWAY ? round : rint;
        return {f(a.lo), f(a.hi), a.nan, true};
    }
    case FITE: { FR a = frange(e->b, depth + 1), b = frange(e->c, depth + 1); return {fmin(a.lo, b.lo), fmax(a.hi, b.hi), a.nan || b.nan, a.negz || b.negz}; }
    case FEXT: return frange(e->a, depth + 1);
    case FTRUNC: { FR a = frange(e->a, depth + 1); return {(double)(float)a.lo, (double)(float)a.hi, a.nan, true}; }
    case FROMBITS: {
        if (e->w != 64) return all;
        const RSet *r = rangeOf(e->a);
        FR o{INFINITY, -INFINITY, false, false};
        for (int i = 0; i < r->n; i++) {
            u64 l = r->lo[i], h = r->hi[i];
            const u64 S = 1ull << 63, INF = 0x7ff0000000000000ull;
            if (l < S) {
                u64 hh = h < S ? h : S - 1;
                if (hh > INF) o.nan = true;
                if (l <= INF) { o.lo = fmin(o.lo, bd(l)); o.hi = fmax(o.hi, bd(hh > INF ? INF : hh)); }
            }
            if (h >= S) {
                u64 ll = l >= S ? l : S;
                if (h > S + INF) o.nan = true;
                if (ll <= S + INF) { o.hi = fmax(o.hi, bd(ll)); o.lo = fmin(o.lo, bd(h > S + INF ? S + INF : h)); if (ll == S) o.negz = true; }
            }
        }
        if (o.lo > o.hi) return all;
        return o;
    }
    default: return all;
    }
}
static unsigned bitlen(u64 v) { return v ? 64 - __builtin_clzll(v) : 0; }
static RSet compRange(E e) {
    unsigned w = e->w; u64 m = M(w);
    switch (e->k) {
    case CONST: return rs_one(e->x, e->x);
    case VAR: return g_vars[e->x].cur;
    case ZEXT: return *rangeOf(e->a);
    case SEXT: {
        const RSet *r = rangeOf(e->a); RSet o; o.n = 0; u64 sb = 1ull << (e->a->w - 1), up = m & ~M(e->a->w);
        for (int i = 0; i < r->n; i++) {
            if (r->lo[i] < sb) rs_add(o, r->lo[i], r->hi[i] < sb ? r->hi[i] : sb - 1);
            if (r->hi[i] >= sb) rs_add(o, (r->lo[i] >= sb ? r->lo[i] : sb) | up, r->hi[i] | up);
        }
        return o;
    }
    case CONCAT: {
        const RSet *a = rangeOf(e->a), *b = rangeOf(e->b); unsigned wb = e->b->w; RSet o; o.n = 0;
        for (int i = 0; i < a->n; i++) {
            if (a->lo[i] == a->hi[i]) for (int j = 0; j < b->n; j++) rs_add(o, a->lo[i] << wb | b->lo[j], a->lo[i] << wb | b->hi[j]);
            else rs_add(o, a->lo[i] << wb | rs_min(b), a->hi[i] << wb | rs_max(b));
        }
        return o;
    }
    case EXTRACT: {
        const RSet *a = rangeOf(e->a); RSet o; o.n = 0; unsigned lo = (unsigned)e->x, top = lo + w;
        for (int i = 0; i < a->n; i++) {
            u64 l = a->lo[i], h = a->hi[i];
            if (top < 64 && (l >> top) != (h >> top)) return rs_full(w);
            rs_add(o, (l >> lo) & m, (h >> lo) & m);
        }
        return o;
    }
    case ADD: {
        if (e->b->k == CONST) return rs_shift(*rangeOf(e->a), e->b->x, w);
        const RSet *a = rangeOf(e->a), *b = rangeOf(e->b);
        u128 h = (u128)rs_max(a) + rs_max(b);
        if (h <= m) return rs_one(rs_min(a) + rs_min(b), (u64)h);
        i128 sl = (i128)rs_smin(a, w) + rs_smin(b, w), sh = (i128)rs_smax(a, w) + rs_smax(b, w);
        if (sl >= SX(1ull << (w - 1), w) && sh <= (i64)(m >> 1)) return rs_signed((i64)sl, (i64)sh, w);
        return rs_full(w);
    }
    case SUB: {
        const RSet *a = rangeOf(e->a), *b = rangeOf(e->b);
        if (rs_min(a) >= rs_max(b)) return rs_one(rs_min(a) - rs_max(b), rs_max(a) - rs_min(b));
        i128 sl = (i128)rs_smin(a, w) - rs_smax(b, w), sh = (i128)rs_smax(a, w) - rs_smin(b, w);
        if (sl >= SX(1ull << (w - 1), w) && sh <= (i64)(m >> 1)) return rs_signed((i64)sl, (i64)sh, w);
        return rs_full(w);
    }
    case MUL: {
        const RSet *a = rangeOf(e->a), *b = rangeOf(e->b);
        u128 h = (u128)rs_max(a) * rs_max(b);
        if (h <= m) return rs_one(rs_min(a) * rs_min(b), (u64)h);
        i128 v[4] = {(i128)rs_smin(a, w) * rs_smin(b, w), (i128)rs_smin(a, w) * rs_smax(b, w), (i128)rs_smax(a, w) * rs_smin(b, w), (i128)rs_smax(a, w) * rs_smax(b, w)};
        i128 l = v[0], hh = v[0];
        for (auto x : v) { if (x < l) l = x; if (x > hh) hh = x; }
        if (l >= SX(1ull << (w - 1), w) && hh <= (i64)(m >> 1)) return rs_signed((i64)l, (i64)hh, w);
        return rs_full(w);
    }
    case AND: { const RSet *a = rangeOf(e->a), *b = rangeOf(e->b); u64 x = rs_max(a), y = rs_max(b); return rs_one(0, (x < y ? x : y) & ~e->kz & m); }
    case OR: case XOR: {
        const RSet *a = rangeOf(e->a), *b = rangeOf(e->b); unsigned bl = bitlen(rs_max(a) | rs_max(b));
        u64 lo = 0; if (e->k == OR) lo = rs_min(a) > rs_min(b) ? rs_min(a) : rs_min(b);
        return rs_one(lo, M(bl ? bl : 1) & ~e->kz & m);
    }
    case UDIV: { const RSet *a = rangeOf(e->a), *b = rangeOf(e->b); if (rs_min(b) == 0) return rs_full(w); return rs_one(rs_min(a) / rs_max(b), rs_max(a) / rs_min(b)); }
    case UREM: { const RSet *a = rangeOf(e->a), *b = rangeOf(e->b); if (rs_min(b) == 0) return rs_full(w); if (rs_max(a) < rs_min(b)) return *a; u64 x = rs_max(b) - 1; return rs_one(0, rs_max(a) < x ? rs_max(a) : x); }
    case SDIV: {
        const RSet *a = rangeOf(e->a), *b = rangeOf(e->b); i64 bl = rs_smin(b, w), bh = rs_smax(b, w);
        if (bl <= 0) return rs_full(w);
        i64 l = rs_smin(a, w), h = rs_smax(a, w);
        return rs_signed(l < 0 ? l / bl : l / bh, h > 0 ? h / bl : h / bh, w);
    }
    case SREM: {
        const RSet *b = rangeOf(e->b); if (rs_smin(b, w) <= 0) return rs_full(w);
        const RSet *a = rangeOf(e->a); i64 d = rs_smax(b, w), l = rs_smin(a, w), h = rs_smax(a, w);
        return rs_signed(l < 0 ? (l > -d ? l : 1 - d) : 0, h > 0 ? (h < d ? h : d - 1) : 0, w);
    }
    case SHL: case LSHR: {
        const RSet *a = rangeOf(e->a), *b = rangeOf(e->b);
        if (rs_max(b) >= w) return rs_full(w);
        if (e->k == LSHR) return rs_one(rs_min(a) >> rs_max(b), rs_max(a) >> rs_min(b));
        u128 h = (u128)rs_max(a) << rs_max(b);
        if (h <= m) return rs_one(rs_min(a) << rs_min(b), (u64)h);
        return rs_full(w);
    }
    case ITE: return rs_union(*rangeOf(e->b), *rangeOf(e->c));
    case CLZ: case CTZ: case POPC: return rs_one(0, e->a->w);
    case TOBITS: {
        if (w != 64) {
            return rs_full(w);
        }
        FR f = frange(e->a); RSet r; r.n = 0;
        if (f.hi >= 0) rs_add(r, db(f.lo > 0 ? f.lo : 0.0), db(f.hi == 0 ? 0.0 : f.hi));
        if (f.lo < 0) rs_add(r, f.hi < 0 ? db(f.hi) : 1ull << 63, db(f.lo));
        if (f.negz && f.lo <= 0 && f.hi >= 0) rs_add(r, 1ull << 63, 1ull << 63);
        if (f.nan) { rs_add(r, 0x7ff8000000000000ull, 0x7ff8000000000000ull); rs_add(r, 0xfff8000000000000ull, 0xfff8000000000000ull); }
        return r;
    }
    default: return rs_full(w);
    }
}
const RSet *rangeOf(E e) {
    if (rangeFresh(e)) return e->rs;
    RSet r = compRange(e);
    if (r.n == 0) r = rs_full(e->w);
    if (!e->rs) e->rs = (RSet *)arena_alloc(sizeof(RSet));
    *e->rs = r;
    e->repoch = g_epoch;
    return e->rs;
}
// back to the declared domains: queries must not depend on what the path narrowed
void expr_reset_ranges() {
    for (int i = 0; i < g_nvars; i++) g_vars[i].cur = g_vars[i].dom;
    ++g_epoch;
    for (auto &x : g_vepoch) x = g_epoch;
}
static bool refine(E e, const RSet &s) {
    switch (e->k) {
    case VAR: {
        VarInfo &v = g_vars[e->x];
        RSet r = rs_inter(v.cur, s);
        if (r.n == 0 || !rs_has(&r, v.val)) return false;
        if (memcmp(&r, &v.cur, sizeof r) && rs_count(&r) < rs_count(&v.cur)) { v.cur = r; g_vepoch[e->x % 64] = ++g_epoch; return true; }
        return false;
    }
    case ZEXT: { RSet r = rs_inter(s, rs_full(e->a->w)); return r.n && refine(e->a, r); }
    case SEXT: {
        RSet r; r.n = 0; u64 m = M(e->a->w), sb = 1ull << (e->a->w - 1), base = M(e->w) - sb + 1;
        for (int i = 0; i < s.n; i++) {
            if (s.lo[i] < sb) rs_add(r, s.lo[i], s.hi[i] < sb ? s.hi[i] : sb - 1);
            if (s.hi[i] >= base) rs_add(r, (s.lo[i] >= base ? s.lo[i] : base) & m, s.hi[i] & m);
        }
        return r.n && refine(e->a, r);
    }
    case ADD: if (e->b->k == CONST) return refine(e->a, rs_shift(s, (0 - e->b->x) & M(e->w), e->w)); return false;
    case TOBITS: return false;
    default: return false;
    }
}
bool assumeRange(E c) {
    if (c->k == AND) { bool x = assumeRange(c->a), y = assumeRange(c->b); return x || y; }
    bool neg = false;
    if (c->k == NOT) { c = c->a; neg = true; }
    if (c->k == OR && neg) { bool x = assumeRange(mkNot(c->a)), y = assumeRange(mkNot(c->b)); return x || y; }
    if (c->k == EQ) {
        if (c->b->k != CONST) return false;
        unsigned w = c->a->w; u64 v = c->b->x;
        if (!neg) return refine(c->a, rs_one(v, v));
        RSet r; r.n = 0;
        if (v > 0) rs_add(r, 0, v - 1);
        if (v < M(w)) rs_add(r, v + 1, M(w));
        return r.n && refine(c->a, r);
    }
    if (neg) return false;
    if (c->k == ULT || c->k == ULE) {
        if (c->b->k == CONST) { u64 v = c->b->x; if (c->k == ULT) { if (!v) return false; v--; } return refine(c->a, rs_one(0, v)); }
        if (c->a->k == CONST) { u64 v = c->a->x; if (c->k == ULT) { if (v == M(c->a->w)) return false; v++; } return refine(c->b, rs_one(v, M(c->b->w))); }
    }
    if (c->k == SLT || c->k == SLE) {
        unsigned w = c->a->w; i64 mn = SX(1ull << (w - 1), w), mx = (i64)(M(w) >> 1);
        if (c->b->k == CONST) { i64 v = SX(c->b->x, w); if (c->k == SLT) { if (v == mn) return false; v--; } return refine(c->a, rs_signed(mn, v, w)); }
        if (c->a->k == CONST) { i64 v = SX(c->a->x, w); if (c->k == SLT) { if (v == mx) return false; v++; } return refine(c->b, rs_signed(v, mx, w)); }
    }
    return false;
}

// ---------------------------------------------------------------- nodes
static u64 evalNode(Kind k, unsigned w, u64 x, E a, E b, E c);
static E intern(Kind k, unsigned w, u64 x, E a, E b, E c) {
    u64 h = mix(mix(k * 131 + w, x), a ? a->h : 0);
    if (b) h = mix(h, b->h ^ 0x1234567);
    if (c) h = mix(h, c->h ^ 0x89abcdef);
    if (k == VAR) { for (const char *p = g_vars[x].name; *p; p++) h = mix(h, (u8)*p); for (int i = 0; i < g_vars[x].dom.n; i++) h = mix(mix(h, g_vars[x].dom.lo[i]), g_vars[x].dom.hi[i]); }
    E *bk = &htab[h & ((1u << HB) - 1)];
    for (E p = *bk; p; p = p->next)
        if (p->h == h && p->k == k && p->w == w && p->x == x && p->a == a && p->b == b && p->c == c) return p->pin ? p->pin : p;
    E e = (E)arena_alloc(sizeof(Expr));
    memset(e, 0, sizeof *e);
    e->k = k; e->w = (u8)w; e->x = x; e->a = a; e->b = b; e->c = c; e->h = h; e->id = ++g_nid;
    e->hasfp = e->fp() || (a && a->hasfp) || (b && b->hasfp) || (c && c->hasfp) || k == TOBITS;
    e->vm = (a ? a->vm : 0) | (b ? b->vm : 0) | (c ? c->vm : 0);
    if (k == VAR) e->vm = 1ull << (x % 64);
    e->cv = evalNode(k, w, x, a, b, c);
    u64 m = M(w);
    switch (k) {
    case CONST: e->kz = ~x; break;
    case ZEXT: e->kz = a->kz | ~M(a->w); break;
    case CONCAT: e->kz = (a->kz << b->w) | (b->kz & M(b->w)); break;
    case EXTRACT: e->kz = a->kz >> x; break;
    case AND: e->kz = a->kz | b->kz; break;
    case OR: case XOR: e->kz = a->kz & b->kz; break;
    case ITE: e->kz = b->kz & c->kz; break;
    case MUL: { unsigned t = __builtin_ctzll(~a->kz | 1ull << 63) + __builtin_ctzll(~b->kz | 1ull << 63); e->kz = t >= 64 ? ~0ull : (1ull << t) - 1; break; }
    case ADD: case SUB: { unsigned ta = __builtin_ctzll(~a->kz | 1ull << 63), tb = __builtin_ctzll(~b->kz | 1ull << 63); unsigned t = ta < tb ? ta : tb; e->kz = t >= 64 ? ~0ull : (1ull << t) - 1; break; }
    default: e->kz = 0;
    }
    if (!e->fp()) {
        e->kz |= ~m;
        if (k != CONST && w > 1) { const RSet *r = rangeOf(e); u64 mx = rs_max(r); unsigned bl = bitlen(mx); e->kz |= ~M(bl ? bl : 1) | (mx == 0 ? ~0ull : 0); }
    }
    e->next = *bk;
    *bk = e;
    return e;
}
static inline u64 x86_f2i(double d, unsigned w) {  // cvttsd2si
    if (w <= 32) { return (u32)_mm_cvttsd_si32(_mm_set_sd(d)); }
    return (u64)_mm_cvttsd_si64(_mm_set_sd(d));
}
static u64 evalNode(Kind k, unsigned w, u64 x, E a, E b, E c) {
    u64 m = M(w), A = a ? a->cv : 0, B = b ? b->cv : 0;
    unsigned aw = a ? a->w : 0;
    switch (k) {
    case CONST: case FCONST: return x;
    case VAR: return g_vars[x].val;
    case ADD: return (A + B) & m;
    case SUB: return (A - B) & m;
    case MUL: return (A * B) & m;
    case UDIV: return B ? A / B : m;
    case UREM: return B ? A % B : A;
    case SDIV: { i64 p = SX(A, w), q = SX(B, w); if (!q) return (p >= 0 ? m : 1); if (q == -1) return (0 - (u64)p) & m; return (u64)(p / q) & m; }
    case SREM: { i64 p = SX(A, w), q = SX(B, w); if (!q) return A; if (q == -1) return 0; return (u64)(p % q) & m; }
    case AND: return A & B; case OR: return A | B; case XOR: return A ^ B;
    case SHL: return B >= w ? 0 : (A << B) & m;
    case LSHR: return B >= w ? 0 : A >> B;
    case ASHR: return (u64)(SX(A, w) >> (B >= w ? w - 1 : B)) & m;
    case EXTRACT: return (A >> x) & m;
    case CONCAT: return (A << b->w) | B;
    case ZEXT: return A; case SEXT: return (u64)SX(A, aw) & m;
    case ITE: return A ? b->cv : c->cv;
    case EQ: return A == B; case ULT: return A < B; case ULE: return A <= B;
    case SLT: return SX(A, aw) < SX(B, aw); case SLE: return SX(A, aw) <= SX(B, aw);
    case NOT: return !A;
    case CLZ: return A ? __builtin_clzll(A) - (64 - aw) : aw;
    case CTZ: return A ? __builtin_ctzll(A) : aw;
    case POPC: return __builtin_popcountll(A);
    case TOBITS: return A;
    case F2SI: return x86_f2i(fval(aw, A), w) & m;
    case FEQ: return fval(aw, A) == fval(aw, B);
    case FLT: return fval(aw, A) < fval(aw, B);
    case FLE: return fval(aw, A) <= fval(aw, B);
    case FNAN: { double d = fval(aw, A); return d != d; }
    case FROMBITS: return A;
    case I2F: if (w == 32) return fb(B ? -0.0f : (float)(i64)A); return db(B ? -0.0 : (double)(i64)A);
    case SI2F: if (w == 32) return fb((float)SX(A, aw)); return db((double)SX(A, aw));
    case UI2F: if (w == 32) return fb((float)A); return db((double)A);
#define FOP(op) if (w == 32) return fb(bf((u32)A) op bf((u32)B)); return db(bd(A) op bd(B));
    case FADD: FOP(+) case FSUB: FOP(-) case FMUL: FOP(*) case FDIV: FOP(/)
    case FNEG: return A ^ (1ull << (w - 1));
    case FABS: return A & (m >> 1);
    case FSQRT: if (w == 32) return fb(sqrtf(bf((u32)A))); return db(sqrt(bd(A)));
    case FRND: {
        double d = fval(w, A);
        d = x == RND_FLOOR ? floor(d) : x == RND_CEIL ? ceil(d) : x == RND_TRUNC ? trunc(d) : x == RND_NEAR_AWAY ? round(d) : rint(d);
        return w == 32 ? fb((float)d) : db(d);
    }
    case FITE: return A ? b->cv : c->cv;
    case FEXT: return db((double)bf((u32)A));
    case FTRUNC: return fb((float)bd(A));
    }
    return 0;
}
u64 expr_eval(E e) { return evalNode(e->k, e->w, e->x, e->a, e->b, e->c); }
void expr_pin(E e) { if (!e->isC() && !e->fp() && e->w > 1 && !e->pin) e->pin = mkC(e->w, e->cv); }
E mkC(unsigned w, u64 v) { return intern(CONST, w, v & M(w), 0, 0, 0); }
E mkFC(unsigned w, u64 v) { return intern(FCONST, w, v & M(w), 0, 0, 0); }
E mkVar(int i) { return g_vars[i].e = intern(VAR, g_vars[i].w, (u64)i, 0, 0, 0); }
static E fin(E e) {  // collapse to a constant if the range is a point
    if (!e->isC() && !e->fp()) {
        const RSet *r = rangeOf(e);
        if (r->n == 1 && r->lo[0] == r->hi[0]) return mkC(e->w, r->lo[0]);
    }
    return e;
}
#define TRUE1 mkC(1, 1)
#define FALSE1 mkC(1, 0)
static E bconst(bool b) { return mkC(1, b); }
E mkNot(E a) {
    if (a->k == CONST) return mkC(1, !a->x);
    if (a->k == NOT) return a->a;
    if (a->k == ULT) return mkUle(a->b, a->a);
    if (a->k == ULE) return mkUlt(a->b, a->a);
    if (a->k == SLT) return mkSle(a->b, a->a);
    if (a->k == SLE) return mkSlt(a->b, a->a);
    if (a->k == ITE && (a->b->isC() || a->c->isC())) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
    return intern(NOT, 1, 0, a, 0, 0);
}
static bool isNotOf(E a, E b) { return (a->k == NOT && a->a == b) || (b->k == NOT && b->a == a) || (a->w == 1 && !a->isC() && !b->isC() && (a->k >= ULT && a->k <= SLE) && mkNot(a) == b); }
E mkAnd(E a, E b) {
    if (a->k == CONST) return a->x ? b : a;
    if (b->k == CONST) return b->x ? a : b;
    if (a == b) return a;
    if (isNotOf(a, b)) return FALSE1;
    if (a->h > b->h) { E t = a; a = b; b = t; }
    return intern(AND, 1, 0, a, b, 0);
}
E mkOr(E a, E b) {
    if (a->k == CONST) return a->x ? a : b;
    if (b->k == CONST) return b->x ? b : a;
    if (a == b) return a;
    if (isNotOf(a, b)) return TRUE1;
    if (a->h > b->h) { E t = a; a = b; b = t; }
    return intern(OR, 1, 0, a, b, 0);
}
static E signOf(E f);
static bool asScaled(E e, E *x, E *z, int *k);
// the bits of a double held as an integer: forks on sign and magnitude class, then stays in bit-vectors
static E explodeBits(E f) {
    E x, z; int k;
    if (f->w != 64 || f->k == FCONST || !asScaled(f, &x, &z, &k)) return 0;
    if (x->isC()) return mkC(64, f->cv);
    auto dec = [](E c) { return c->k == CONST ? (bool)c->x : expr_decide(c); };
    if (dec(mkEq(x, mkC(64, 0)))) { bool n = dec(z); return mkC(64, n ? 1ull << 63 : 0); }
    bool neg = dec(mkSlt(x, mkC(64, 0)));
    E ax = neg ? mkBin(SUB, mkC(64, 0), x) : x;
    if (rs_smax(rangeOf(ax), 64) > (1ll << 53)) return 0;
    unsigned lo = bitlen(rs_min(rangeOf(ax))), hi = bitlen(rs_max(rangeOf(ax))); if (!lo) lo = 1;
    while (lo < hi) { unsigned mid = (lo + hi) / 2; if (dec(mkUlt(ax, mkC(64, 1ull << mid)))) hi = mid; else lo = mid + 1; }
    unsigned n = lo - 1;
    if (n > 52) return 0;
    E top = mkC(12, (u64)(1023 + (int)n - k) | (neg ? 1u << 11 : 0));
    E m = n ? mkExtract(ax, 0, n) : 0;
    if (m && n < 52) m = mkConcat(m, mkC(52 - n, 0));
    return mkConcat(top, m ? m : mkC(52, 0));
}
E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    switch (a->k) {
    case CONST: return mkC(w, a->x >> lo);
    case EXTRACT: return mkExtract(a->a, lo + (unsigned)a->x, w);
    case CONCAT:
        if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
        if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case ZEXT:
        if (lo >= a->a->w) return mkC(w, 0);
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
    case SEXT:
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo == 0) return mkSext(a->a, w);
        break;
    case ITE:
        if (a->b->isC() || a->c->isC()) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
        break;
    case AND: case OR: case XOR:
        if (a->w > 1 && (a->b->isC() || a->a->k == CONCAT || a->b->k == CONCAT || a->a->k == ZEXT || a->b->k == ZEXT))
            return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        break;
    case ADD: case SUB: case MUL:
        if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case TOBITS:
        if (lo == a->w - 1u && w == 1) if (E r = signOf(a->a)) return r;
        if ((lo == 52 && w == 11) || (lo == 0 && (w == 32 || w == 52 || w == 53 || w == 63)) || (lo == 32 && (w == 20 || w == 31 || w == 32))) if (E r = explodeBits(a->a)) return mkExtract(r, lo, w);
        break;
    default: break;
    }
    if (((~a->kz >> lo) & M(w)) == 0) return mkC(w, 0);
    // narrow the extraction when the high part is known to be zero
    if (lo > 0 || w > 1) {
        u64 nz = (~a->kz >> lo) & M(w); unsigned bl = bitlen(nz);
        if (bl < w && bl > 0 && a->k != VAR) return mkZext(mkExtract(a, lo, bl), w);
    }
    return fin(intern(EXTRACT, w, lo, a, 0, 0));
}
E mkConcat(E a, E b) {
    unsigned w = a->w + b->w;
    if (w > 64) abort();
    if (a->k == CONST && b->k == CONST) return mkC(w, a->x << b->w | b->x);
    if (a->k == CONST && a->x == 0) return mkZext(b, w);
    if (a->k == CONCAT) return mkConcat(a->a, mkConcat(a->b, b));
    // merge a with the top part of b when both are slices of one value
    E top = b->k == CONCAT ? b->a : b;
    E merged = 0;
    if (a->k == EXTRACT) {
        E y = a->a; unsigned lo = (unsigned)a->x;
        if (lo >= top->w && mkExtract(y, lo - top->w, top->w) == top) merged = mkExtract(y, lo - top->w, a->w + top->w);
    } else if (a->k == ZEXT && a->a->k == EXTRACT) {
        E y = a->a->a; unsigned lo = (unsigned)a->a->x;
        if (lo >= top->w && mkExtract(y, lo - top->w, top->w) == top) merged = mkZext(mkExtract(y, lo - top->w, a->a->w + top->w), a->w + top->w);
    } else if (a->k == CONST && top->k == CONST) merged = mkC(a->w + top->w, a->x << top->w | top->x);
    if (merged) return b->k == CONCAT ? mkConcat(merged, b->b) : merged;
    if (a->k == ZEXT) return mkZext(mkConcat(a->a, b), w);
    return fin(intern(CONCAT, w, 0, a, b, 0));
}
E mkZext(E a, unsigned w) {
    if (w == a->w) return a;
    if (w < a->w) return mkExtract(a, 0, w);
    if (a->k == CONST) return mkC(w, a->x);
    if (a->k == ZEXT) a = a->a;
    if (a->k == ITE && (a->b->isC() && a->c->isC())) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
    return fin(intern(ZEXT, w, 0, a, 0, 0));
}
E mkSext(E a, unsigned w) {
    if (w == a->w) return a;
    if (w < a->w) return mkExtract(a, 0, w);
    if (a->k == CONST) return mkC(w, (u64)SX(a->x, a->w));
    if (a->w > 1 && (a->kz >> (a->w - 1) & 1)) return mkZext(a, w);
    if (a->w > 1 && rs_max(rangeOf(a)) < (1ull << (a->w - 1))) return mkZext(a, w);
    if (a->k == ZEXT) return mkZext(a->a, w);
    if (a->k == SEXT) a = a->a;
    if (a->k == ITE && (a->b->isC() && a->c->isC())) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
    return fin(intern(SEXT, w, 0, a, 0, 0));
}
E mkIte(E c, E a, E b) {
    if (a->fp()) return mkFIte(c, a, b);
    if (c->k == CONST) return c->x ? a : b;
    if (a == b) return a;
    if (c->k == NOT) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (a->k == CONST && b->k == CONST) return a->x ? c : mkNot(c);
        if (a->k == CONST) return a->x ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->k == CONST) return b->x ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (a->k == ITE && a->a == c) a = a->b;
    if (b->k == ITE && b->a == c) b = b->c;
    if (a == b) return a;
    return intern(ITE, a->w, 0, c, a, b);
}
static bool contigMaskHigh(u64 v, unsigned w, unsigned *k) {  // ones in bits [k,w)
    u64 inv = ~v & M(w);
    if (v == 0 || inv == 0) return false;
    if ((inv & (inv + 1)) != 0) return false;
    *k = bitlen(inv);
    return true;
}
static E bitOrDisjoint(E a, E b) {
    // a has zeros in its low k bits, b has zeros from bit k up
    for (int s = 0; s < 2; s++) {
        E hi = s ? b : a, lo = s ? a : b;
        u64 lnz = ~lo->kz & M(lo->w), hnz = ~hi->kz & M(hi->w);
        if (!lnz || !hnz) continue;
        unsigned k = bitlen(lnz);
        if (k < a->w && (hnz & M(k)) == 0) return mkConcat(mkExtract(hi, k, a->w - k), mkExtract(lo, 0, k));
    }
    return 0;
}
E mkBin(Kind k, E a, E b) {
    unsigned w = a->w; u64 m = M(w);
    if (a->k == CONST && b->k == CONST) return mkC(w, evalNode(k, w, 0, a, b, 0));
    if (w == 1) {
        switch (k) {
        case AND: case MUL: return mkAnd(a, b);
        case OR: return mkOr(a, b);
        case XOR: case ADD: case SUB:
            if (a->k == CONST) return a->x ? mkNot(b) : b;
            if (b->k == CONST) return b->x ? mkNot(a) : a;
            if (a == b) return FALSE1;
            return mkIte(a, mkNot(b), b);
        default: break;
        }
    }
    bool comm = k == ADD || k == MUL || k == AND || k == OR || k == XOR;
    if (comm) {
        if (a->k == CONST || (b->k != CONST && a->h > b->h)) { E t = a; a = b; b = t; }
    }
    bool bc = b->k == CONST;
    u64 c = bc ? b->x : 0;
    // push constants into an ITE of constants
    if (bc && a->k == ITE && a->b->isC() && a->c->isC()) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (a->k == CONST && b->k == ITE && b->b->isC() && b->c->isC()) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    switch (k) {
    case ADD:
        if (bc && c == 0) return a;
        if (bc && a->k == ADD && a->b->k == CONST) return mkBin(ADD, a->a, mkC(w, a->b->x + c));
        if (bc && a->k == SUB && a->a->k == CONST) return mkBin(SUB, mkC(w, a->a->x + c), a->b);
        if (!bc && a->k == ADD && a->b->k == CONST) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
        if (!bc && b->k == ADD && b->b->k == CONST) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
        if (!bc && a->k == SUB && a->b == b) return a->a;
        if (!bc && b->k == SUB && b->b == a) return b->a;
        if (!bc) { if (E r = ((~a->kz & ~b->kz & m) == 0 ? bitOrDisjoint(a, b) : 0)) return r; }
        break;
    case SUB:
        if (bc) return mkBin(ADD, a, mkC(w, 0 - c));
        if (a == b) return mkC(w, 0);
        if (a->k == ADD && a->b->k == CONST && !(b->k == ADD && b->b->k == CONST)) return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
        if (b->k == ADD && b->b->k == CONST) return mkBin(ADD, mkBin(SUB, a, b->a), mkC(w, 0 - b->b->x));
        if (a->k == ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
        break;
    case MUL:
        if (bc) {
            if (c == 0) return b;
            if (c == 1) return a;
            if ((c & (c - 1)) == 0) { unsigned s = bitlen(c) - 1; return mkConcat(mkExtract(a, 0, w - s), mkC(s, 0)); }
            if (a->k == MUL && a->b->k == CONST) return mkBin(MUL, a->a, mkC(w, a->b->x * c));
        }
        break;
    case AND:
        if (bc) {
            if (c == 0) return b;
            if (c == m) return a;
            if ((~a->kz & m & ~c) == 0) return a;
            if ((~a->kz & c) == 0) return mkC(w, 0);
            if ((c & (c + 1)) == 0) return mkZext(mkExtract(a, 0, bitlen(c)), w);
            unsigned hk;
            if (contigMaskHigh(c, w, &hk)) return mkConcat(mkExtract(a, hk, w - hk), mkC(hk, 0));
            if (a->k == AND && a->b->k == CONST) return mkBin(AND, a->a, mkC(w, a->b->x & c));
            if (a->k == CONCAT) return mkConcat(mkBin(AND, a->a, mkC(a->a->w, c >> a->b->w)), mkBin(AND, a->b, mkC(a->b->w, c)));
            if (a->k == ZEXT) return mkZext(mkBin(AND, a->a, mkC(a->a->w, c)), w);
            // contiguous run of ones in the middle
            unsigned t = __builtin_ctzll(c);
            if (t && (((c >> t) & ((c >> t) + 1)) == 0)) return mkConcat(mkZext(mkExtract(a, t, bitlen(c >> t)), w - t), mkC(t, 0));
        }
        if (a == b) return a;
        break;
    case OR:
        if (bc && c == 0) return a;
        if (bc && c == m) return b;
        if (a == b) return a;
        if ((~a->kz & ~b->kz & m) == 0) if (E r = bitOrDisjoint(a, b)) return r;
        if (bc && a->k == CONCAT) return mkConcat(mkBin(OR, a->a, mkC(a->a->w, c >> a->b->w)), mkBin(OR, a->b, mkC(a->b->w, c)));
        break;
    case XOR:
        if (bc && c == 0) return a;
        if (a == b) return mkC(w, 0);
        if (bc && a->k == XOR && a->b->k == CONST) return mkBin(XOR, a->a, mkC(w, a->b->x ^ c));
        if ((~a->kz & ~b->kz & m) == 0) if (E r = bitOrDisjoint(a, b)) return r;
        break;
    case SHL:
        if (bc) { if (c == 0) return a; if (c >= w) return mkC(w, 0); return mkConcat(mkExtract(a, 0, w - c), mkC(c, 0)); }
        break;
    case LSHR:
        if (bc) { if (c == 0) return a; if (c >= w) return mkC(w, 0); return mkZext(mkExtract(a, c, w - c), w); }
        if (a->k == CONST && a->x == 0) return a;
        break;
    case ASHR:
        if (bc) { if (c == 0) return a; if (c >= w) c = w - 1; return mkSext(mkExtract(a, c, w - c), w); }
        break;
    case UDIV:
        if (bc && c == 1) return a;
        if (bc && c && (c & (c - 1)) == 0) return mkBin(LSHR, a, mkC(w, bitlen(c) - 1));
        break;
    case UREM:
        if (bc && c && (c & (c - 1)) == 0) return mkBin(AND, a, mkC(w, c - 1));
        if (bc && c && rs_max(rangeOf(a)) < c) return a;
        break;
    case SDIV: case SREM:
        if (bc && k == SDIV && c == 1) return a;
        if (rs_smin(rangeOf(a), w) >= 0 && rs_smin(rangeOf(b), w) > 0) return mkBin(k == SDIV ? UDIV : UREM, a, b);
        break;
    default: break;
    }
    // narrow arithmetic whose operands are small: cheaper for the solver
    return fin(intern(k, w, 0, a, b, 0));
}
static bool pointBits(E tb, u64 v, E *out) {  // EQ(TOBITS(I2F), const)
    E f = tb->a;
    if (f->k != I2F || tb->w != 64) return false;
    double d = bd(v);
    if (v == 1ull << 63) { *out = f->b ? f->b : FALSE1; return true; }
    if (d != d || d != floor(d) || fabs(d) > 9007199254740992.0) { *out = FALSE1; return true; }
    E q = mkEq(f->a, mkC(64, (u64)(i64)d));
    if (d == 0 && f->b) q = mkAnd(q, mkNot(f->b));
    *out = q;
    return true;
}
E mkEq(E a, E b) {
    if (a == b) return TRUE1;
    if (a->k == CONST && b->k == CONST) return bconst(a->x == b->x);
    if (a->k == CONST || (b->k != CONST && a->h > b->h)) { E t = a; a = b; b = t; }
    unsigned w = a->w;
    if (w == 1) {
        if (b->k == CONST) return b->x ? a : mkNot(a);
        return mkIte(a, b, mkNot(b));
    }
    if (b->k == CONST) {
        u64 c = b->x; E o;
        if (!rs_has(rangeOf(a), c)) return FALSE1;
        if (c & a->kz) return FALSE1;
        switch (a->k) {
        case ZEXT: return (c & ~M(a->a->w)) ? FALSE1 : mkEq(a->a, mkC(a->a->w, c));
        case SEXT: return ((u64)SX(c & M(a->a->w), a->a->w) & M(w)) == c ? mkEq(a->a, mkC(a->a->w, c)) : FALSE1;
        case CONCAT: return mkAnd(mkEq(a->a, mkC(a->a->w, c >> a->b->w)), mkEq(a->b, mkC(a->b->w, c)));
        case ITE: if (a->b->isC() || a->c->isC()) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b)); break;
        case ADD: if (a->b->k == CONST) return mkEq(a->a, mkC(w, c - a->b->x)); break;
        case SUB: if (a->a->k == CONST) return mkEq(a->b, mkC(w, a->a->x - c)); break;
        case XOR: if (a->b->k == CONST) return mkEq(a->a, mkC(w, c ^ a->b->x)); break;
        case TOBITS: if (pointBits(a, c, &o)) return o; break;
        case MUL: {  // small positive factors without overflow
            if (a->b->k == CONST) {
                i64 f = SX(a->b->x, w); const RSet *r = rangeOf(a->a);
                i128 p = (i128)rs_smin(r, w) * f, q = (i128)rs_smax(r, w) * f; i64 mn = SX(1ull << (w - 1), w), mx = (i64)(M(w) >> 1);
                if (f && p >= mn && p <= mx && q >= mn && q <= mx) { i64 cc = SX(c, w); return cc % f ? FALSE1 : mkEq(a->a, mkC(w, (u64)(cc / f))); }
            }
            break;
        }
        default: break;
        }
        return intern(EQ, 1, 0, a, b, 0);
    }
    if (a->k == ZEXT && b->k == ZEXT) { unsigned n = a->a->w > b->a->w ? a->a->w : b->a->w; return mkEq(mkZext(a->a, n), mkZext(b->a, n)); }
    if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == TOBITS && b->k == TOBITS && a->a->k == I2F && b->a->k == I2F) {
        E q = mkEq(a->a->a, b->a->a), za = a->a->b, zb = b->a->b;
        if (za || zb) { if (!za) za = FALSE1; if (!zb) zb = FALSE1; q = mkAnd(q, mkEq(za, zb)); }
        return q;
    }
    if (a->k == ADD && b->k == ADD && a->b->k == CONST && b->b->k == CONST && a->b == b->b) return mkEq(a->a, b->a);
    if (a->k == CONCAT && b->k == CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    const RSet *ra = rangeOf(a), *rb = rangeOf(b);
    if (rs_max(ra) < rs_min(rb) || rs_max(rb) < rs_min(ra)) return FALSE1;
    { RSet i = rs_inter(*ra, *rb); if (i.n == 0) return FALSE1; }
    return intern(EQ, 1, 0, a, b, 0);
}
static E ucmp(E a, E b, bool eq) {
    if (a == b) return bconst(eq);
    unsigned w = a->w;
    if (a->k == CONST && b->k == CONST) return bconst(eq ? a->x <= b->x : a->x < b->x);
    if (w > 1) {
        const RSet *ra = rangeOf(a), *rb = rangeOf(b);
        u64 al = rs_min(ra), ah = rs_max(ra), bl = rs_min(rb), bh = rs_max(rb);
        if (ah < bl || (eq && ah == bl)) return TRUE1;
        if (al > bh || (!eq && al == bh)) return FALSE1;
        if (a->k == ZEXT && b->k == ZEXT) { unsigned n = a->a->w > b->a->w ? a->a->w : b->a->w; return ucmp(mkZext(a->a, n), mkZext(b->a, n), eq); }
        if (a->k == ZEXT && b->k == CONST && b->x <= M(a->a->w)) return ucmp(a->a, mkC(a->a->w, b->x), eq);
        if (b->k == ZEXT && a->k == CONST && a->x <= M(b->a->w)) return ucmp(mkC(b->a->w, a->x), b->a, eq);
        if (b->k == CONST && a->k == ITE && (a->b->isC() || a->c->isC())) return mkIte(a->a, ucmp(a->b, b, eq), ucmp(a->c, b, eq));
        if (a->k == CONST && b->k == ITE && (b->b->isC() || b->c->isC())) return mkIte(b->a, ucmp(a, b->b, eq), ucmp(a, b->c, eq));
        if (!eq && b->k == CONST && b->x == 1) return mkEq(a, mkC(w, 0));
        if (!eq && a->k == CONST && a->x == 0) return mkNot(mkEq(b, a));
    } else return eq ? mkOr(mkNot(a), b) : mkAnd(mkNot(a), b);
    return intern(eq ? ULE : ULT, 1, 0, a, b, 0);
}
E mkUlt(E a, E b) { return ucmp(a, b, false); }
E mkUle(E a, E b) { return ucmp(a, b, true); }
// sign bit of a double held as an integer (plus negative zero flag)
static E signOf(E f) {
    if (f->k == I2F) { E n = mkSlt(f->a, mkC(64, 0)); return f->b ? mkOr(f->b, n) : n; }
    if (f->k == FCONST) return bconst(f->x >> (f->w - 1));
    if (f->k == FNEG) { E r = signOf(f->a); return r ? mkNot(r) : 0; }
    if (f->k == FABS) return FALSE1;
    if (f->k == FROMBITS) return mkExtract(f->a, f->w - 1, 1);
    if (f->k == FITE) { E p = signOf(f->b), q = signOf(f->c); return p && q ? mkIte(f->a, p, q) : 0; }
    if (f->k == FDIV && f->b->k == FCONST && f->b->x >> (f->w - 1) == 0) return signOf(f->a);
    return 0;
}
static E scmp(E a, E b, bool eq) {
    if (a->k == TOBITS && b->k == CONST && ((b->x == 0 && !eq) || (b->x == M(a->w) && eq))) if (E r = signOf(a->a)) return r;
    if (b->k == TOBITS && a->k == CONST && ((a->x == 0 && eq) || (a->x == M(b->w) && !eq))) if (E r = signOf(b->a)) return mkNot(r);
    if (a == b) return bconst(eq);
    unsigned w = a->w;
    if (a->k == CONST && b->k == CONST) return bconst(eq ? SX(a->x, w) <= SX(b->x, w) : SX(a->x, w) < SX(b->x, w));
    if (w == 1) return eq ? mkOr(a, mkNot(b)) : mkAnd(a, mkNot(b));
    const RSet *ra = rangeOf(a), *rb = rangeOf(b);
    i64 al = rs_smin(ra, w), ah = rs_smax(ra, w), bl = rs_smin(rb, w), bh = rs_smax(rb, w);
    if (ah < bl || (eq && ah == bl)) return TRUE1;
    if (al > bh || (!eq && al == bh)) return FALSE1;
    if (al >= 0 && bl >= 0) return ucmp(a, b, eq);
    if (ah < 0 && bh < 0) return ucmp(a, b, eq);
    if (a->k == SEXT && b->k == SEXT) { unsigned n = a->a->w > b->a->w ? a->a->w : b->a->w; if (n < w) return scmp(mkSext(a->a, n), mkSext(b->a, n), eq); }
    if (a->k == SEXT && b->k == CONST && SX(b->x & M(a->a->w), a->a->w) == SX(b->x, w)) return scmp(a->a, mkC(a->a->w, b->x), eq);
    if (b->k == SEXT && a->k == CONST && SX(a->x & M(b->a->w), b->a->w) == SX(a->x, w)) return scmp(mkC(b->a->w, a->x), b->a, eq);
    if (b->k == CONST && a->k == ITE && (a->b->isC() || a->c->isC())) return mkIte(a->a, scmp(a->b, b, eq), scmp(a->c, b, eq));
    if (a->k == CONST && b->k == ITE && (b->b->isC() || b->c->isC())) return mkIte(b->a, scmp(a, b->b, eq), scmp(a, b->c, eq));
    return intern(eq ? SLE : SLT, 1, 0, a, b, 0);
}
E mkSlt(E a, E b) { return scmp(a, b, false); }
E mkSle(E a, E b) { return scmp(a, b, true); }
E mkUn(Kind k, E a) {
    if (a->k == CONST) return mkC(a->w, evalNode(k, a->w, 0, a, 0, 0));
    return fin(intern(k, a->w, 0, a, 0, 0));
}
// ---------------------------------------------------------------- floating point
E mkFromBits(E a) {
    if (a->k == CONST) return mkFC(a->w, a->x);
    if (a->k == TOBITS) return a->a;
    if (a->k == ITE && (a->b->isC() || a->b->k == TOBITS) && (a->c->isC() || a->c->k == TOBITS)) return mkFIte(a->a, mkFromBits(a->b), mkFromBits(a->c));
    return intern(FROMBITS, a->w, 0, a, 0, 0);
}
E mkToBits(E a) {
    if (a->k == FCONST) return mkC(a->w, a->x);
    if (a->k == FROMBITS) return a->a;
    if (a->k == FITE && (a->b->k == FCONST || a->b->k == I2F || a->b->k == FROMBITS) && (a->c->k == FCONST || a->c->k == I2F || a->c->k == FROMBITS))
        return mkIte(a->a, mkToBits(a->b), mkToBits(a->c));
    FR f = frange(a);
    if (f.nan) {
        E n = mkFNan(a);
        if (n->k == CONST ? n->x : expr_decide(n)) return mkC(a->w, a->cv);
    }
    if (a->k == I2F && !a->b) { const RSet *r = rangeOf(a->a); if (r->n == 1 && r->lo[0] == r->hi[0]) return mkC(a->w, a->cv); }
    return intern(TOBITS, a->w, 0, a, 0, 0);
}
static bool fitsInt(E e, unsigned w) {
    const RSet *r = rangeOf(e); i64 lim = w == 32 ? 1ll << 24 : 1ll << 53;
    return rs_smin(r, 64) >= -lim && rs_smax(r, 64) <= lim;
}
E mkI2F(E e, E z, unsigned w) {
    if (z && z->k == CONST) { if (z->x) return mkFC(w, 1ull << (w - 1)); z = 0; }
    if (e->k == CONST && !z) { double d = (double)(i64)e->x; return mkFC(w, w == 32 ? fb((float)d) : db(d)); }
    return intern(I2F, w, 0, e, z, 0);
}
E mkIntToF(E e, bool sgn, unsigned w) {
    if (e->k == CONST) { if (w == 64) return mkFC(64, db(sgn ? (double)SX(e->x, e->w) : (double)e->x)); return mkFC(32, fb(sgn ? (float)SX(e->x, e->w) : (float)e->x)); }
    if (sgn || e->w < 64 || rs_max(rangeOf(e)) >> 63 == 0) {
        E x = sgn ? mkSext(e, 64) : mkZext(e, 64);
        if (fitsInt(x, w)) return mkI2F(x, 0, w);
        // fork on "exactly representable range" so that the common side stays in bit-vectors
        i64 lim = w == 32 ? 1ll << 24 : 1ll << 53;
        E in = mkAnd(mkSle(mkC(64, (u64)-lim), x), mkSle(x, mkC(64, (u64)lim)));
        if (in->k == CONST && in->x) return mkI2F(x, 0, w);
    }
    return intern(sgn ? SI2F : UI2F, w, 0, e, 0, 0);
}
static bool constInt(E e, i64 *v) {  // FCONST that is an exact integer and not -0
    if (e->k != FCONST) return false;
    double d = fval(e->w, e->x);
    if (d != d || fabs(d) > 9007199254740992.0 || d != floor(d) || (d == 0 && std::signbit(d))) return false;
    *v = (i64)d;
    return true;
}
static bool asInt(E e, E *v, E *z) {
    i64 c;
    if (e->k == I2F) { *v = e->a; *z = e->b ? e->b : FALSE1; return true; }
    if (e->k == FCONST && fval(e->w, e->x) == 0 && (e->x >> (e->w - 1))) { *v = mkC(64, 0); *z = TRUE1; return true; }
    if (constInt(e, &c)) { *v = mkC(64, (u64)c); *z = FALSE1; return true; }
    return false;
}
// C cast from floating point, with the semantics of the x86 code clang and gcc emit
E mkF2I(E f, unsigned w, bool sgn) {
    unsigned iw = w <= 16 ? 32 : w;
    if (!sgn && w == 32) iw = 64;
    if (f->k == FCONST) {
        double d = fval(f->w, f->x);
        if (!sgn && w == 64) { u64 r; if (d >= 9223372036854775808.0) r = x86_f2i(d - 9223372036854775808.0, 64) ^ (1ull << 63); else r = x86_f2i(d, 64); return mkC(64, r); }
        return mkC(w, x86_f2i(d, iw));
    }
    if (f->k == FITE) return mkIte(f->a, mkF2I(f->b, w, sgn), mkF2I(f->c, w, sgn));
    if (!sgn && w == 64) {
        if (f->k == I2F && rs_smin(rangeOf(f->a), 64) >= 0) return f->a;
        E big = mkFCmp(FLE, mkFC(f->w, f->w == 64 ? db(9223372036854775808.0) : fb(9223372036854775808.0f)), f);
        if (big->k == CONST && !big->x) return mkF2I(f, 64, true);
        if (big->k != CONST && expr_decide(big)) {
            E g = mkFBin(FSUB, f, mkFC(f->w, f->w == 64 ? db(9223372036854775808.0) : fb(9223372036854775808.0f)));
            return mkBin(XOR, mkF2I(g, 64, true), mkC(64, 1ull << 63));
        }
        return mkF2I(f, 64, true);
    }
    if (f->k == I2F) {
        E e = f->a;
        if (iw == 32) {
            E in = mkAnd(mkSle(mkC(64, (u64)(i64)INT32_MIN), e), mkSle(e, mkC(64, INT32_MAX)));
            return mkExtract(mkIte(in, mkExtract(e, 0, 32), mkC(32, 0x80000000u)), 0, w);
        }
        return mkExtract(e, 0, w);
    }
    if (f->k == FDIV && f->w == 64) {
        E n, d, zn, zd;
        if (asInt(f->a, &n, &zn) && asInt(f->b, &d, &zd) && d->k == CONST && d->x) return mkF2I(mkI2F(mkBin(SDIV, n, d), 0, 64), w, sgn);
    }
    if (f->k == FROMBITS || f->fp()) return mkExtract(fin(intern(F2SI, iw, 0, f, 0, 0)), 0, w);
    return 0;
}
static E zero64() { return mkC(64, 0); }
static i128 iabs(i128 v) { return v < 0 ? -v : v; }
// exact binary fixed point: value = x * 2^-k (doubles only)
static int log2pow(double d) { int e; if (!(d > 0) || std::isinf(d) || frexp(d, &e) != 0.5) return -9999; return e - 1; }
static bool asScaled(E e, E *x, E *z, int *k) {
    if (e->w != 64) return false;
    if (asInt(e, x, z)) { *k = 0; return true; }
    if (e->k == FDIV && e->b->k == FCONST) {
        int l = log2pow(fval(64, e->b->x));
        if (l > 0 && l <= 60 && asInt(e->a, x, z)) { *k = l; return true; }
    }
    if (e->k == FCONST) {
        double d = fval(64, e->x);
        if (d != d || std::isinf(d) || d == 0) return false;
        for (int l = 1; l <= 60; l++) { d *= 2; if (fabs(d) > 9007199254740992.0) return false; if (d == floor(d)) { *x = mkC(64, (u64)(i64)d); *z = FALSE1; *k = l; return true; } }
    }
    return false;
}
static E mkScaled(E x, E z, int k) {
    E i = mkI2F(x, z, 64);
    if (!k) return i;
    E d = mkFC(64, db(ldexp(1.0, k)));
    if (i->k == FCONST) return mkFC(64, evalNode(FDIV, 64, 0, i, d, 0));
    return intern(FDIV, 64, 0, i, d, 0);
}
static i128 absMax(E x) { const RSet *r = rangeOf(x); i128 m = iabs(rs_smin(r, 64)), M2 = iabs(rs_smax(r, 64)); return m > M2 ? m : M2; }
static E scaledBin(Kind k, E a, E b) {
    E x, y, zx, zy; int kx, ky; i128 lim = (i128)1 << 53;
    if (k == FDIV && b->k == FCONST && asScaled(a, &x, &zx, &kx)) {
        int l = log2pow(fval(64, b->x));
        if (l > 0 && kx + l <= 60) return mkScaled(x, zx, kx + l);
        return 0;
    }
    if (k == FMUL && (a->k == FCONST || b->k == FCONST)) {
        E c = a->k == FCONST ? a : b, o = a->k == FCONST ? b : a;
        int l = log2pow(fval(64, c->x));
        if (l < 0 && l >= -60 && asScaled(o, &x, &zx, &kx) && kx - l <= 60) return mkScaled(x, zx, kx - l);
        if (l > 0 && asScaled(o, &x, &zx, &kx) && kx > 0) {
            if (l <= kx) return mkScaled(x, zx, kx - l);
        }
    }
    if (!asScaled(a, &x, &zx, &kx) || !asScaled(b, &y, &zy, &ky) || (kx == 0 && ky == 0)) return 0;
    if (k == FADD || k == FSUB) {
        int m = kx > ky ? kx : ky; if (m - kx > 60 || m - ky > 60) return 0;
        if ((absMax(x) << (m - kx)) + (absMax(y) << (m - ky)) > lim) return 0;
        E p = mkBin(MUL, x, mkC(64, 1ull << (m - kx))), q = mkBin(MUL, y, mkC(64, 1ull << (m - ky)));
        if (k == FADD) return mkScaled(mkBin(ADD, p, q), mkAnd(zx, zy), m);
        return mkScaled(mkBin(SUB, p, q), mkAnd(zx, mkAnd(mkEq(y, zero64()), mkNot(zy))), m);
    }
    if (k == FMUL && kx + ky <= 60 && absMax(x) * absMax(y) <= lim) {
        E p = mkBin(MUL, x, y);
        E sx = mkOr(zx, mkSlt(x, zero64())), sy = mkOr(zy, mkSlt(y, zero64()));
        return mkScaled(p, mkAnd(mkEq(p, zero64()), mkIte(sx, mkNot(sy), sy)), kx + ky);
    }
    return 0;
}
static E stripExt(E e) { while (e->k == ZEXT || e->k == SEXT) e = e->a; return e; }
// x - x % d, k*d and sums of these are multiples of d
static bool multipleOf(E x, i64 d, int depth = 4) {
    if (!depth) return false;
    if (x->k == CONST) return (i64)x->x % d == 0;
    if (x->k == MUL && x->b->k == CONST) return (i64)x->b->x % d == 0 || multipleOf(x->a, d, depth - 1);
    if (x->k == ITE) return multipleOf(x->b, d, depth - 1) && multipleOf(x->c, d, depth - 1);
    if (x->k == SUB) {
        E r = stripExt(x->b);
        if ((r->k == UREM || r->k == SREM) && r->b->k == CONST && (i64)r->b->x == d && stripExt(x->a) == stripExt(r->a)) return true;
        return multipleOf(x->a, d, depth - 1) && multipleOf(x->b, d, depth - 1);
    }
    if (x->k == ADD) return multipleOf(x->a, d, depth - 1) && multipleOf(x->b, d, depth - 1);
    return false;
}
E mkFBin(Kind k, E a, E b) {
    unsigned w = a->w;
    if (a->k == FCONST && b->k == FCONST) return mkFC(w, evalNode(k, w, 0, a, b, 0));
    if (a->k == FCONST && fval(w, a->x) != fval(w, a->x)) return mkFC(w, evalNode(k, w, 0, a, b, 0));
    if (b->k == FCONST && fval(w, b->x) != fval(w, b->x)) return mkFC(w, evalNode(k, w, 0, a, b, 0));
    if (a->k == FITE) return mkFIte(a->a, mkFBin(k, a->b, b), mkFBin(k, a->c, b));
    if (b->k == FITE) return mkFIte(b->a, mkFBin(k, a, b->b), mkFBin(k, a, b->c));
    E x, y, zx, zy;
    i128 lim = w == 32 ? (i128)1 << 24 : (i128)1 << 53;
    if (asInt(a, &x, &zx) && asInt(b, &y, &zy)) {
        const RSet *rx = rangeOf(x), *ry = rangeOf(y);
        i128 xm = iabs(rs_smin(rx, 64)), xM = iabs(rs_smax(rx, 64)), ym = iabs(rs_smin(ry, 64)), yM = iabs(rs_smax(ry, 64));
        i128 ax = xm > xM ? xm : xM, ay = ym > yM ? ym : yM;
        if (k == FADD && ax + ay <= lim) return mkI2F(mkBin(ADD, x, y), mkAnd(zx, zy), w);
        if (k == FSUB && ax + ay <= lim) return mkI2F(mkBin(SUB, x, y), mkAnd(zx, mkAnd(mkEq(y, zero64()), mkNot(zy))), w);
        if (k == FMUL && ax * ay <= lim) {
            E p = mkBin(MUL, x, y);
            E sx = mkOr(zx, mkSlt(x, zero64())), sy = mkOr(zy, mkSlt(y, zero64()));
            E neg = mkIte(sx, mkNot(sy), sy);
            return mkI2F(p, mkAnd(mkEq(p, zero64()), neg), w);
        }
        if (k == FDIV && y->k == CONST && y->x == 1) return a;
        if (k == FDIV && y->k == CONST && y->x == ~0ull) return mkFUn(FNEG, a, 0);
        if (k == FDIV && y->k == CONST && y->x != 0 && (x->k == MUL) && x->b->k == CONST && zx->k == CONST && !zx->x) {
            i64 f = (i64)x->b->x, d = (i64)y->x;
            if (f && d > 0 && f % d == 0) { E q = mkBin(MUL, x->a, mkC(64, (u64)(f / d))); return mkI2F(q, 0, w); }
        }
    }
    if (k == FDIV && asInt(a, &x, &zx) && asInt(b, &y, &zy) && y->k == CONST && (i64)y->x > 0 && (i64)y->x < (1ll << 31) && (multipleOf(x, (i64)y->x) ||
        ((x->k == SUB || (x->k == ADD && x->a->k == SUB)) && (i64)x->cv % (i64)y->x == 0 && expr_decide(mkEq(mkBin(SREM, x, y), zero64()))))) {
        E q = mkBin(rs_smin(rangeOf(x), 64) >= 0 ? UDIV : SDIV, x, y);
        return mkI2F(q, zx, w);
    }
    if (w == 64) { E q = scaledBin(k, a, b); if (q) return q; }
    return intern(k, w, 0, a, b, 0);
}
static E floorDiv(E x, E y, bool up) {  // y constant, nonzero
    i64 d = (i64)y->x;
    if (d < 0) { x = mkBin(SUB, zero64(), x); d = -d; y = mkC(64, (u64)d); }
    if (rs_smin(rangeOf(x), 64) >= 0 && !up) return mkBin(UDIV, x, y);
    E q = mkBin(SDIV, x, y), r = mkBin(SREM, x, y);
    if (up) return mkIte(mkSlt(zero64(), r), mkBin(ADD, q, mkC(64, 1)), q);
    return mkIte(mkSlt(r, zero64()), mkBin(ADD, q, mkC(64, ~0ull)), q);
}
E mkFUn(Kind k, E a, unsigned mode) {
    unsigned w = a->w;
    if (a->k == FCONST) return mkFC(w, evalNode(k, w, mode, a, 0, 0));
    if (a->k == FITE) return mkFIte(a->a, mkFUn(k, a->b, mode), mkFUn(k, a->c, mode));
    E x, z;
    if (asInt(a, &x, &z)) {
        if (k == FRND) return a;
        if (k == FNEG) return mkI2F(mkBin(SUB, zero64(), x), mkAnd(mkEq(x, zero64()), mkNot(z)), w);
        if (k == FABS) return mkI2F(mkIte(mkSlt(x, zero64()), mkBin(SUB, zero64(), x), x), 0, w);
    }
    if (k == FRND && a->k == FDIV) {
        E n, d, zn, zd;
        if (w == 64 && asInt(a->a, &n, &zn) && asInt(a->b, &d, &zd) && d->k == CONST && d->x && zn->k == CONST && !zn->x) {
            i64 dv = (i64)d->x;
            if (mode == RND_FLOOR) {
                // -0 only when n == 0 and d < 0
                return mkI2F(floorDiv(n, d, false), dv < 0 ? mkEq(n, zero64()) : FALSE1, w);
            }
            if (mode == RND_TRUNC) {
                E q = mkBin(SDIV, n, d);
                E neg = dv < 0 ? mkSle(zero64(), n) : mkSlt(n, zero64());
                return mkI2F(q, mkAnd(mkEq(q, zero64()), neg), w);
            }
            if (mode == RND_CEIL && dv > 0) {
                E q = floorDiv(n, d, true);
                return mkI2F(q, mkAnd(mkEq(q, zero64()), mkSlt(n, zero64())), w);
            }
        }
    }
    if (k == FRND && a->k == FDIV && mode <= RND_TRUNC) {   // exact for |n| < 2^53: n/d never rounds up to an integer
        E n, d, zn, zd;
        if (w == 64 && asInt(a->a, &n, &zn) && asInt(a->b, &d, &zd) && d->k != CONST && zn->k == CONST && !zn->x && zd->k == CONST && !zd->x && (mode == RND_FLOOR || mode == RND_CEIL || mode == RND_TRUNC)) {
            bool has0 = rs_has(rangeOf(d), 0), neg = rs_smin(rangeOf(d), 64) < 0;
            E m1 = mkC(64, ~0ull), dn = mkSlt(d, zero64());
            E N = neg ? mkIte(dn, mkBin(SUB, zero64(), n), n) : n, D = neg ? mkIte(dn, mkBin(SUB, zero64(), d), d) : d;
            if (has0) D = mkIte(mkEq(d, zero64()), mkC(64, 1), D);
            bool nn = rs_smin(rangeOf(N), 64) >= 0; E q = mkBin(nn ? UDIV : SDIV, N, D), r = mkBin(nn ? UREM : SREM, N, D);
            E v = mode == RND_FLOOR ? mkIte(mkSlt(r, zero64()), mkBin(ADD, q, m1), q) : mode == RND_CEIL ? mkIte(mkSlt(zero64(), r), mkBin(ADD, q, mkC(64, 1)), q) : q;
            E sgn = mode == RND_FLOOR ? mkAnd(mkEq(n, zero64()), dn) : mkAnd(mkEq(v, zero64()), mkOr(mkSlt(N, zero64()), mkAnd(mkEq(n, zero64()), dn)));
            E res = mkI2F(v, sgn, w);
            if (has0) res = mkFIte(mkEq(d, zero64()), mkFIte(mkSlt(zero64(), n), mkFC(64, 0x7ff0000000000000ull), mkFIte(mkSlt(n, zero64()), mkFC(64, 0xfff0000000000000ull), mkFC(64, 0x7ff8000000000000ull))), res);
            return res;
        }
    }
    if (k == FNEG && a->k == FNEG) return a->a;
    if (k == FABS && (a->k == FNEG || a->k == FABS)) return mkFUn(FABS, a->a, 0);
    if (k == FRND && a->k == FRND) return a;
    return intern(k, w, mode, a, 0, 0);
}
E mkFCmp(Kind k, E a, E b) {
    if (a->k == FCONST && b->k == FCONST) return bconst(evalNode(k, 1, 0, a, b, 0));
    if ((a->k == FCONST && fval(a->w, a->x) != fval(a->w, a->x)) || (b->k == FCONST && fval(b->w, b->x) != fval(b->w, b->x))) return FALSE1;
    if (a->k == FITE) return mkIte(a->a, mkFCmp(k, a->b, b), mkFCmp(k, a->c, b));
    if (b->k == FITE) return mkIte(b->a, mkFCmp(k, a, b->b), mkFCmp(k, a, b->c));
    E x, y, zx, zy;
    if (asInt(a, &x, &zx) && asInt(b, &y, &zy)) return k == FEQ ? mkEq(x, y) : k == FLT ? mkSlt(x, y) : mkSle(x, y);
    // integer against a non-integer constant
    for (int s = 0; s < 2; s++) {
        E i = s ? b : a, c = s ? a : b;
        if (c->k == FCONST && i->k == I2F) {
            double d = fval(c->w, c->x);
            if (k == FEQ && (d != floor(d) || std::isinf(d))) return FALSE1;
            if (std::isinf(d) || fabs(d) > 9007199254740992.0) { bool less = d > 0; return bconst(k == FEQ ? false : (s ? !less : less)); }
            E fl = mkC(64, (u64)(i64)floor(d));
            // d not an integer here (otherwise constInt matched, except -0)
            if (d != floor(d)) {
                if (!s) return mkSle(i->a, fl);             // i < d  <=> i <= floor d
                return mkSlt(fl, i->a);                      // d < i  <=> i > floor d
            }
        }
    }
    if (a->w == 64) {
        int kx, ky;
        if (asScaled(a, &x, &zx, &kx) && asScaled(b, &y, &zy, &ky) && (kx || ky)) {
            int m = kx > ky ? kx : ky;
            if ((absMax(x) << (m - kx)) < ((i128)1 << 62) && (absMax(y) << (m - ky)) < ((i128)1 << 62)) {
                x = mkBin(MUL, x, mkC(64, 1ull << (m - kx))); y = mkBin(MUL, y, mkC(64, 1ull << (m - ky)));
                return k == FEQ ? mkEq(x, y) : k == FLT ? mkSlt(x, y) : mkSle(x, y);
            }
        }
    }
    FR p = frange(a), q = frange(b);
    if (!p.nan && !q.nan) {
        if (k == FEQ && (p.hi < q.lo || q.hi < p.lo)) return FALSE1;
        if (k == FLT) { if (p.hi < q.lo) return TRUE1; if (p.lo >= q.hi) return FALSE1; }
        if (k == FLE) { if (p.hi <= q.lo) return TRUE1; if (p.lo > q.hi) return FALSE1; }
        if (a == b) return bconst(k != FLT);
    }
    return intern(k, 1, 0, a, b, 0);
}
E mkFNan(E a) {
    if (a->k == FCONST) { double d = fval(a->w, a->x); return bconst(d != d); }
    if (a->k == FITE) return mkIte(a->a, mkFNan(a->b), mkFNan(a->c));
    if (!frange(a).nan) return FALSE1;
    if (a->k == FROMBITS && a->w == 64) return mkUlt(mkC(64, 0x7ff0000000000000ull), mkZext(mkExtract(a->a, 0, 63), 64));
    if (a->k == FNEG || a->k == FABS || a->k == FRND || a->k == FEXT || a->k == FTRUNC) return mkFNan(a->a);
    return intern(FNAN, 1, 0, a, 0, 0);
}
E mkFMod(E a, E b) {
    E x, y, zx, zy;
    if (a->k == FITE) { E p = mkFMod(a->b, b), q = mkFMod(a->c, b); return p && q ? mkFIte(a->a, p, q) : 0; }
    {
        auto dec = [](E c) { return c->k == CONST ? (bool)c->x : expr_decide(c); };
        E nan = mkFC(a->w, a->w == 64 ? 0x7ff8000000000000ull : 0x7fc00000u), inf = mkFC(a->w, a->w == 64 ? 0x7ff0000000000000ull : 0x7f800000u);
        double bv = b->k == FCONST ? fval(b->w, b->x) : 1, av = a->k == FCONST ? fval(a->w, a->x) : 1;
        if (bv == 0 || bv != bv || std::isinf(av) || av != av) return nan;
        if (std::isinf(bv)) { if (dec(mkFNan(a)) || dec(mkFCmp(FEQ, mkFUn(FABS, a, 0), inf))) return nan; return a; }
    }
    if (b->k == FCONST && a->w == 64 && !asInt(a, &x, &zx)) {   // |a| >= 2^53 modulo a power of two: integer arithmetic on the representation
        double d = fval(64, b->x); int l = d > 1 && !std::isinf(d) ? log2pow(d) : -1;
        if (l >= 1 && l <= 53) {
            double big = 9007199254740992.0;
            E c = mkAnd(mkFCmp(FLE, mkFC(64, db(big)), mkFUn(FABS, a, 0)), mkNot(mkFCmp(FEQ, mkFUn(FABS, a, 0), mkFC(64, 0x7ff0000000000000ull))));
            if (c->k == CONST ? c->x : expr_decide(c)) {
                E bits = mkToBits(a), e = mkZext(mkExtract(bits, 52, 11), 64), m = mkBin(OR, mkZext(mkExtract(bits, 0, 52), 64), mkC(64, 1ull << 52));
                E sh = mkBin(SUB, e, mkC(64, 1075));
                E far = mkUle(mkC(64, l), sh);
                E r = mkIte(far, mkC(64, 0), mkBin(AND, mkBin(SHL, m, mkIte(far, mkC(64, 0), sh)), mkC(64, (1ull << l) - 1)));
                E neg = mkEq(mkExtract(bits, 63, 1), mkC(1, 1));
                return mkI2F(mkIte(neg, mkBin(SUB, zero64(), r), r), mkAnd(mkEq(r, zero64()), neg), 64);
            }
        }
        return 0;
    }
    if (!asInt(a, &x, &zx) || !asInt(b, &y, &zy)) return 0;
    E isz = mkEq(y, zero64());
    if (isz->k == CONST ? isz->x : expr_decide(isz)) return mkFC(a->w, db(fmod(fval(a->w, a->cv), fval(b->w, b->cv))));
    E r = mkBin(SREM, x, y);
    if (y->k == CONST && (i64)y->x < 0) r = mkBin(SREM, x, mkC(64, 0 - y->x));
    return mkI2F(r, mkAnd(mkEq(r, zero64()), mkOr(zx, mkSlt(x, zero64()))), a->w);
}
E mkFIte(E c, E a, E b) {
    if (c->k == CONST) return c->x ? a : b;
    if (a == b) return a;
    E x, y, zx, zy;
    if (asInt(a, &x, &zx) && asInt(b, &y, &zy)) return mkI2F(mkIte(c, x, y), mkIte(c, zx, zy), a->w);
    if (c->k == NOT) return mkFIte(c->a, b, a);
    return intern(FITE, a->w, 0, c, a, b);
}
E mkFResize(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->k == FCONST) return mkFC(w, w == 64 ? db((double)bf((u32)a->x)) : fb((float)bd(a->x)));
    if (a->k == I2F && (w == 64 || fitsInt(a->a, 32))) return mkI2F(a->a, a->b, w);
    if (a->k == FITE) return mkFIte(a->a, mkFResize(a->b, w), mkFResize(a->c, w));
    if (w == 32 && a->k == FEXT) return a->a;
    return intern(w == 64 ? FEXT : FTRUNC, w, 0, a, 0, 0);
}
// ---------------------------------------------------------------- printing
static const char *kn[] = {"const", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "extract", "concat", "zext", "sext", "ite", "=", "<u", "<=u", "<s", "<=s", "not", "clz", "ctz", "popc", "tobits", "f2si", "f=", "f<", "f<=", "fnan", "fconst", "frombits", "i2f", "si2f", "ui2f", "f+", "f-", "f*", "f/", "fneg", "fabs", "fsqrt", "frnd", "fite", "fext", "ftrunc"};
static void pr(E e, int d, char **p, char *end) {
    if (*p + 40 > end) return;
    if (e->k == CONST) { *p += sprintf(*p, "%lld", (long long)SX(e->x, e->w)); return; }
    if (e->k == FCONST) { *p += sprintf(*p, "%g", fval(e->w, e->x)); return; }
    if (e->k == VAR) { *p += sprintf(*p, "%s", g_vars[e->x].name); return; }
    if (d <= 0) { *p += sprintf(*p, ".."); return; }
    *p += sprintf(*p, "(%s%s", kn[e->k], "");
    if (e->k == EXTRACT) *p += sprintf(*p, "[%d+%d]", (int)e->x, e->w);
    if (e->k == FRND) *p += sprintf(*p, "%d", (int)e->x);
    for (E q : {e->a, e->b, e->c}) if (q) { *(*p)++ = ' '; pr(q, d - 1, p, end); }
    *(*p)++ = ')'; **p = 0;
}
char *expr_str(E e, int depth) { static char buf[4][3000]; static int i; char *b = buf[i++ & 3], *p = b; *p = 0; pr(e, depth, &p, b + 2900); return b; }
