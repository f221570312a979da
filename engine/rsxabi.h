// Constants shared by the pass and the runtime.
#ifndef RSXABI_H
#define RSXABI_H
#define RSX_MAXARGS 24
#define RSX_BLOOM 65536
#define RSX_FP 0x80 /* type code flag: floating point; low 7 bits: width */
enum {
    RSX_ADD = 1, RSX_SUB, RSX_MUL, RSX_UDIV, RSX_SDIV, RSX_UREM, RSX_SREM, RSX_AND, RSX_OR, RSX_XOR, RSX_SHL, RSX_LSHR, RSX_ASHR,
    RSX_FADD, RSX_FSUB, RSX_FMUL, RSX_FDIV, RSX_FREM,
    RSX_TRUNC, RSX_ZEXT, RSX_SEXT, RSX_FPTOSI, RSX_FPTOUI, RSX_SITOFP, RSX_UITOFP, RSX_FPTRUNC, RSX_FPEXT, RSX_BITCAST,
    RSX_FNEG, RSX_UMIN, RSX_UMAX, RSX_SMIN, RSX_SMAX, RSX_USUBSAT, RSX_UADDSAT, RSX_COPYSIGN,
    RSX_ABS, RSX_BSWAP, RSX_CTLZ, RSX_CTTZ, RSX_CTPOP, RSX_FABS, RSX_FLOOR, RSX_CEIL, RSX_FTRUNC, RSX_SQRT, RSX_FPCLASS, RSX_XCHG
};
#endif
