// Hash-consed symbolic expressions with a concrete value, plus Z3 translation.
#ifndef EXPR_H
#define EXPR_H
#include <cstdint>
#include <cstddef>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Kind : u8 {
    CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EXTRACT, CONCAT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE, NOT, CLZ, CTZ, POPC,
    TOBITS, F2SI, FEQ, FLT, FLE, FNAN,
    // floating point sorts from here on
    FCONST, FROMBITS, I2F, SI2F, UI2F, FADD, FSUB, FMUL, FDIV, FNEG, FABS, FSQRT, FRND, FITE, FEXT, FTRUNC,
};
enum { RND_FLOOR, RND_CEIL, RND_TRUNC, RND_NEAR_EVEN, RND_NEAR_AWAY };

#define RS_MAX 6
struct RSet { int n; u64 lo[RS_MAX], hi[RS_MAX]; };

struct Expr {
    Kind k; u8 w; bool hasfp; bool rsfull;
    u32 id; u32 repoch;
    u64 cv;
    Expr *a, *b, *c;
    u64 x;
    u64 vm;
    u64 h;
    u64 kz;        // bits known to be zero
    RSet *rs;      // current cached range
    void *z, *zbl; // Z3 asts
    Expr *next, *pin;
    bool isC() const { return k == CONST || k == FCONST; }
    bool fp() const { return k >= FCONST; }
};
typedef Expr *E;

static inline u64 M(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline i64 SX(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct VarInfo { char name[24]; u8 w; RSet dom; RSet cur; u64 val; bool sgn; bool isf; E e; };
extern VarInfo *g_vars; extern int g_nvars;

E mkC(unsigned w, u64 v);
E mkVar(int idx);
E mkNot(E a);
E mkBin(Kind k, E a, E b);
E mkEq(E a, E b);
E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w); E mkSext(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkUn(Kind k, E a);
E mkAnd(E a, E b); E mkOr(E a, E b);  // booleans
// floating point
E mkFC(unsigned w, u64 bits);
E mkFromBits(E a);
E mkToBits(E a);           // may log a NaN event through expr_nan_event
E mkI2F(E e, E negz, unsigned w);
E mkIntToF(E e, bool sgn, unsigned w);
E mkF2I(E f, unsigned w, bool sgn);
E mkFBin(Kind k, E a, E b);
E mkFUn(Kind k, E a, unsigned mode);
E mkFCmp(Kind k, E a, E b);
E mkFNan(E a);
E mkFMod(E a, E b);        // null if outside the model
E mkFIte(E c, E a, E b);
E mkFResize(E a, unsigned w);
extern bool (*expr_decide)(E cond);   // runtime forks on cond, returns concrete truth
const RSet *rangeOf(E e);
u64 rs_count(const RSet *r);
bool rs_has(const RSet *r, u64 v);
u64 rs_min(const RSet *r); u64 rs_max(const RSet *r);
i64 rs_smin(const RSet *r, unsigned w); i64 rs_smax(const RSet *r, unsigned w);
void expr_reset_ranges();
bool assumeRange(E cond);             // refine variable domains from a true condition
void expr_init();
u64 expr_eval(E e);
void expr_pin(E e);   // the path condition fixes e: later uses of it are constants
char *expr_str(E e, int depth);
void *arena_alloc(size_t n);

#endif
