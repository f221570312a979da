// Embeds the real engine, loads a scenario script and exposes the symbolic API to it.
#include "ratjs_internal.h"
#include "rsx.h"

#define MAXSCN 256
static RJS_Runtime *rt_;
static int nscn;
static char *names[MAXSCN];
static int timeouts[MAXSCN];
static RJS_Value *fns;      // array object of scenario functions
static RJS_Value *finals;   // object holding the final callback
static RJS_Value *mods;     // array object: module sources

static RJS_Value *
arg (RJS_Runtime *rt, RJS_Value *args, size_t argc, size_t i) { return rjs_argument_get(rt, args, argc, i); }
static int32_t
argi (RJS_Runtime *rt, RJS_Value *args, size_t argc, size_t i, int32_t d)
{
    RJS_Value *v = arg(rt, args, argc, i);
    if (!rjs_value_is_number(rt, v)) return d;
    return (int32_t)rjs_value_get_number(rt, v);
}
static void
argname (RJS_Runtime *rt, RJS_Value *args, size_t argc, size_t i, char *buf, size_t n)
{
    RJS_Value *v = arg(rt, args, argc, i);
    size_t k, len;
    buf[0] = 0;
    if (!rjs_value_is_string(rt, v)) { snprintf(buf, n, "v"); return; }
    len = rjs_string_get_length(rt, v);
    const RJS_UChar *p = rjs_string_get_uchars(rt, v);
    for (k = 0; k < len && k + 1 < n; k++) buf[k] = (char)(p[k] < 128 ? p[k] : '?');
    buf[k] = 0;
}
static RJS_NF(h_symInt)
{
    char nm[24];
    argname(rt, args, argc, 0, nm, sizeof nm);
    int32_t lo = argi(rt, args, argc, 1, -2147483647 - 1), hi = argi(rt, args, argc, 2, 2147483647);
    rjs_value_set_number(rt, rv, (double)rsx_sym_i32(nm, lo, hi));
    return RJS_OK;
}
static RJS_NF(h_symNum)
{
    char nm[24];
    argname(rt, args, argc, 0, nm, sizeof nm);
    uint64_t b = rsx_sym_bits(nm, 0);
    double d;
    memcpy(&d, &b, 8);
    rjs_value_set_number(rt, rv, d);
    return RJS_OK;
}
static RJS_NF(h_symBool)
{
    char nm[24];
    argname(rt, args, argc, 0, nm, sizeof nm);
    rjs_value_set_boolean(rt, rv, rsx_sym_i32(nm, 0, 1) != 0);
    return RJS_OK;
}
/* symStr(name, length, "azAZ09"): every unit ranges over the given intervals */
static RJS_NF(h_symStr)
{
    char nm[24], nm2[24];
    RJS_UChar buf[256];
    uint16_t rg[64];
    int n, i, k = 0;
    argname(rt, args, argc, 0, nm, sizeof nm);
    n = argi(rt, args, argc, 1, 1);
    if (n > 256) n = 256;
    RJS_Value *al = arg(rt, args, argc, 2);
    if (rjs_value_is_string(rt, al)) {
        size_t len = rjs_string_get_length(rt, al);
        const RJS_UChar *p = rjs_string_get_uchars(rt, al);
        for (size_t j = 0; j + 1 < len && k < 32; j += 2) { rg[2 * k] = p[j]; rg[2 * k + 1] = p[j + 1]; k++; }
    } else { rg[0] = 0; rg[1] = 0xffff; k = 1; }
    for (i = 0; i < n; i++) {
        snprintf(nm2, sizeof nm2, "%.16s%d", nm, i);
        buf[i] = rsx_sym_u16(nm2, k, rg);
    }
    return rjs_string_from_uchars(rt, rv, buf, n);
}
/* symBytes(name, n, lo, hi) -> array of numbers */
static RJS_NF(h_assume)
{
    RJS_Bool b = rjs_to_boolean(rt, arg(rt, args, argc, 0));
    rsx_assume(b ? 1 : 0);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}
static char *
desc (RJS_Runtime *rt, RJS_Value *v)
{
    static char bufs[4][300];
    static int bi;
    char *buf = bufs[bi++ & 3];
    const char *s;
    if (rjs_value_is_number(rt, v)) { double d = rjs_value_get_number(rt, v); if (d == 0 && signbit(d)) return "-0"; snprintf(buf, 300, "%.17g", d); return buf; }
    if (rjs_value_is_string(rt, v)) {
        size_t n = rjs_string_get_length(rt, v), i; const RJS_UChar *p = rjs_string_get_uchars(rt, v); char *o = buf;
        *o++ = '"';
        for (i = 0; i < n && o < buf + 280; i++) { if (p[i] >= 32 && p[i] < 127) *o++ = (char)p[i]; else o += sprintf(o, "\\u%04x", p[i]); }
        *o++ = '"'; *o = 0;
        return buf;
    }
    s = rjs_to_desc_chars(rt, v, NULL, NULL);
    snprintf(buf, 300, "%s", s ? s : "?");
    return buf;
}
static RJS_NF(h_check)
{
    static char m[200];
    RJS_Bool b = rjs_to_boolean(rt, arg(rt, args, argc, 0));
    argname(rt, args, argc, 1, m, sizeof m);
    rsx_check(b ? 1 : 0, m);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}
static RJS_NF(h_checkKnown)
{
    char m[64];
    RJS_Bool b = rjs_to_boolean(rt, arg(rt, args, argc, 0));
    argname(rt, args, argc, 1, m, sizeof m);
    rsx_check_known(b ? 1 : 0, m);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}
/* eq(actual, expected, msg): SameValue */
static RJS_NF(h_eq)
{
    static char m[200];
    char nb[700];
    RJS_Value *a = arg(rt, args, argc, 0), *b = arg(rt, args, argc, 1);
    RJS_Bool r;
    argname(rt, args, argc, 2, m, sizeof m);
    if (rjs_value_is_number(rt, a) && rjs_value_is_number(rt, b)) {
        double x = rjs_value_get_number(rt, a), y = rjs_value_get_number(rt, b);
        if (isnan(x)) r = isnan(y);
        else { uint64_t p, q; memcpy(&p, &x, 8); memcpy(&q, &y, 8); r = p == q; }
    } else r = rjs_same_value(rt, a, b);
    if (!r) { snprintf(nb, sizeof nb, "actual %s expected %s", desc(rt, a), desc(rt, b)); rsx_note(nb); }
    rsx_check(r ? 1 : 0, m);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}
static RJS_NF(h_conc)
{
    RJS_Value *v = arg(rt, args, argc, 0);
    if (rjs_value_is_number(rt, v)) rjs_value_set_number(rt, rv, rsx_conc_f64(rjs_value_get_number(rt, v)));
    else if (rjs_value_is_string(rt, v)) {
        size_t n = rjs_string_get_length(rt, v), i;
        const RJS_UChar *p = rjs_string_get_uchars(rt, v);
        RJS_UChar buf[512];
        for (i = 0; i < n && i < 512; i++) buf[i] = rsx_conc_u16(p[i]);
        return rjs_string_from_uchars(rt, rv, buf, i);
    } else if (rjs_value_is_boolean(rt, v)) { rjs_value_set_boolean(rt, rv, rsx_conc_i32(rjs_value_get_boolean(rt, v))); }
    else rjs_value_copy(rt, rv, v);
    return RJS_OK;
}
static RJS_NF(h_fail)
{
    static char m[200];
    argname(rt, args, argc, 0, m, sizeof m);
    rsx_fail(m);
    return RJS_OK;
}
static RJS_NF(h_note)
{
    size_t i;
    for (i = 0; i < argc; i++) rsx_note(desc(rt, arg(rt, args, argc, i)));
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}
static RJS_NF(h_gc) { rjs_value_set_undefined(rt, rv); rjs_gc_run(rt); return RJS_OK; }
static void force_gc (void) { rt_->gc_last_mem_size = 0; rt_->mem_size += 0; }
/* gcAt(n): one collection at an arbitrary one of the next n allocations */
static RJS_NF(h_gcAt)
{
    rjs_gc_run(rt);
    rsx_gc_arm(argi(rt, args, argc, 0, 100), force_gc);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}
static RJS_NF(h_drain) { rjs_solve_jobs(rt); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_bits)   /* [high32, low32] of a number, as a number pair through index 0/1 */
{
    RJS_Value *v = arg(rt, args, argc, 0);
    double d = rjs_value_is_number(rt, v) ? rjs_value_get_number(rt, v) : 0;
    uint64_t b;
    memcpy(&b, &d, 8);
    if (argi(rt, args, argc, 1, 0)) rjs_value_set_number(rt, rv, (double)(uint32_t)b);
    else rjs_value_set_number(rt, rv, (double)(uint32_t)(b >> 32));
    return RJS_OK;
}
/* ref ToInt32 by exponent arithmetic on the bits (independent of the engine) */
static RJS_NF(h_refInt32)
{
    RJS_Value *v = arg(rt, args, argc, 0);
    double d = rjs_value_is_number(rt, v) ? rjs_value_get_number(rt, v) : 0;
    uint64_t b, m;
    memcpy(&b, &d, 8);
    int e = (int)((b >> 52) & 0x7ff);
    uint32_t r;
    m = (b & 0xfffffffffffffull) | 0x10000000000000ull;
    if (e == 0x7ff || e < 1023) r = 0;
    else {
        int s = e - 1075;   /* value = m * 2^s */
        if (s >= 32) r = 0;
        else if (s >= 0) r = (uint32_t)(m << s);
        else r = (uint32_t)(m >> -s);
    }
    if (b >> 63) r = 0u - r;
    rjs_value_set_number(rt, rv, argi(rt, args, argc, 1, 0) ? (double)r : (double)(int32_t)r);
    return RJS_OK;
}
/* ref(op, a, b): reference integer operations, computed in plain C on int64 */
static RJS_NF(h_ref)
{
    char op[16];
    argname(rt, args, argc, 0, op, sizeof op);
    RJS_Value *va = arg(rt, args, argc, 1), *vb = arg(rt, args, argc, 2);
    int64_t a = rjs_value_is_number(rt, va) ? (int64_t)rjs_value_get_number(rt, va) : 0, b = rjs_value_is_number(rt, vb) ? (int64_t)rjs_value_get_number(rt, vb) : 0, r = 0;
    if (!strcmp(op, "shl")) r = (int32_t)((uint32_t)a << (b & 31));
    else if (!strcmp(op, "shr")) r = (int32_t)a >> (b & 31);
    else if (!strcmp(op, "ushr")) r = (uint32_t)a >> (b & 31);
    else if (!strcmp(op, "and")) r = (int32_t)a & (int32_t)b;
    else if (!strcmp(op, "or")) r = (int32_t)a | (int32_t)b;
    else if (!strcmp(op, "xor")) r = (int32_t)a ^ (int32_t)b;
    else if (!strcmp(op, "not")) r = ~(int32_t)a;
    else if (!strcmp(op, "imul")) r = (int32_t)((uint32_t)a * (uint32_t)b);
    else if (!strcmp(op, "add")) r = a + b;
    else if (!strcmp(op, "sub")) r = a - b;
    else if (!strcmp(op, "mul")) r = a * b;
    else if (!strcmp(op, "div")) r = b ? a / b : 0;
    else if (!strcmp(op, "mod")) r = b ? a % b : 0;
    else if (!strcmp(op, "fdiv")) { r = b ? a / b : 0; if (b && a % b != 0 && ((a < 0) != (b < 0))) r--; }
    else if (!strcmp(op, "fmod")) { r = b ? a % b : 0; if (r != 0 && ((r < 0) != (b < 0))) r += b; }
    else if (!strcmp(op, "clz")) { uint32_t u = (uint32_t)a; r = 0; for (int i = 31; i >= 0 && !(u >> i); i--) r++; }
    else if (!strcmp(op, "lt")) r = a < b;
    else if (!strcmp(op, "u8")) r = (uint8_t)a;
    else if (!strcmp(op, "i8")) r = (int8_t)a;
    else if (!strcmp(op, "u16")) r = (uint16_t)a;
    else if (!strcmp(op, "i16")) r = (int16_t)a;
    else if (!strcmp(op, "u32")) r = (uint32_t)a;
    else if (!strcmp(op, "i32")) r = (int32_t)a;
    rjs_value_set_number(rt, rv, (double)r);
    return RJS_OK;
}
static RJS_NF(h_parse)   /* parse only: "" or the error text */
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *s = rjs_value_stack_push(rt), *e = rjs_value_stack_push(rt);
    RJS_Result r = rjs_script_from_string(rt, s, arg(rt, args, argc, 0), rjs_realm_current(rt), argc > 1 && rjs_to_boolean(rt, arg(rt, args, argc, 1)));
    if (r == RJS_ERR) rjs_catch(rt, e);
    rjs_value_stack_restore(rt, top);
    rjs_value_set_boolean(rt, rv, r != RJS_ERR);
    return RJS_OK;
}
static RJS_NF(h_script)   /* parse and evaluate a script in the current realm */
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *s = rjs_value_stack_push(rt);
    RJS_Result r = rjs_script_from_string(rt, s, arg(rt, args, argc, 0), rjs_realm_current(rt), 0);
    if (r != RJS_ERR) r = rjs_script_evaluation(rt, s, rv);
    rjs_value_stack_restore(rt, top);
    return r;
}
static RJS_NF(h_scenario)
{
    char nm[100];
    size_t top = rjs_value_stack_save(rt);
    argname(rt, args, argc, 0, nm, sizeof nm);
    if (nscn < MAXSCN) {
        names[nscn] = strdup(nm);
        timeouts[nscn] = argi(rt, args, argc, 2, 0);
        rjs_set_index(rt, fns, nscn, arg(rt, args, argc, 1), RJS_FALSE);
        nscn++;
    }
    rjs_value_stack_restore(rt, top);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}
static RJS_NF(h_final) { rjs_set_index(rt, finals, 0, arg(rt, args, argc, 0), RJS_FALSE); rjs_value_set_undefined(rt, rv); return RJS_OK; }
static RJS_NF(h_defmod)
{
    rjs_set_index(rt, mods, argi(rt, args, argc, 0, 0), arg(rt, args, argc, 1), RJS_FALSE);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}
#if ENABLE_MODULE
static RJS_Result
mod_lookup (RJS_Runtime *rt, const char *base, const char *name, char *path)
{
    char c = (char)rsx_conc_u16((unsigned char)name[1]);   /* one path per module name */
    if (c != name[1]) return RJS_ERR;
    if (name[0] != 'm' || name[1] < '0' || name[1] > '9' || name[2]) return RJS_ERR;
    path[0] = 'm'; path[1] = c; path[2] = 0;
    return RJS_OK;
}
static RJS_Result
mod_load (RJS_Runtime *rt, const char *id, RJS_PromiseCapability *pc)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *mod = rjs_value_stack_push(rt), *err = rjs_value_stack_push(rt), *src = rjs_value_stack_push(rt);
    RJS_Input input;
    RJS_Result r;
    rjs_get_index(rt, mods, id[1] - '0', src);
    if (!rjs_value_is_string(rt, src)) r = rjs_throw_type_error(rt, "no such module");
    else {
        rjs_string_input_init(rt, &input, src);
        r = rjs_load_module(rt, RJS_MODULE_TYPE_SCRIPT, &input, id, NULL, mod);
        rjs_input_deinit(rt, &input);
    }
    if (r == RJS_ERR) { rjs_catch(rt, err); r = rjs_call(rt, pc->reject, rjs_v_undefined(rt), err, 1, NULL); }
    else r = rjs_call(rt, pc->resolve, rjs_v_undefined(rt), mod, 1, NULL);
    rjs_value_stack_restore(rt, top);
    return r;
}
#endif
static void
def (const char *n, RJS_NativeFunc f)
{
    RJS_Runtime *rt = rt_;
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *name = rjs_value_stack_push(rt), *fv = rjs_value_stack_push(rt);
    RJS_PropertyName pn;
    rjs_string_from_chars(rt, name, n, -1);
    rjs_create_builtin_function(rt, NULL, f, 0, name, NULL, NULL, NULL, fv);
    rjs_property_name_init(rt, &pn, name);
    rjs_create_data_property(rt, rjs_global_object(rjs_realm_current(rt)), &pn, fv);
    rjs_property_name_deinit(rt, &pn);
    rjs_value_stack_restore(rt, top);
}
static void
uncaught (const char *pfx)
{
    RJS_Runtime *rt = rt_;
    static char b[400];
    RJS_Value *err = rjs_value_stack_push(rt), *str = rjs_value_stack_push(rt);
    rjs_catch(rt, err);
    snprintf(b, sizeof b, "%s", pfx);
    if (rjs_to_string(rt, err, str) == RJS_OK) snprintf(b, sizeof b, "%s: %s", pfx, rjs_string_to_enc_chars(rt, str, NULL, NULL));
    rsx_fail(b);
}
static void
run (int i)
{
    RJS_Runtime *rt = rt_;
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *f = rjs_value_stack_push(rt), *rv = rjs_value_stack_push(rt);
    rjs_get_index(rt, fns, i, f);
    if (rjs_call(rt, f, rjs_v_undefined(rt), NULL, 0, rv) == RJS_ERR) uncaught("unexpected exception");
    rjs_solve_jobs(rt);
    rjs_get_index(rt, finals, 0, f);
    if (!rjs_value_is_undefined(rt, f)) {
        if (rjs_call(rt, f, rjs_v_undefined(rt), NULL, 0, rv) == RJS_ERR) uncaught("unexpected exception");
    }
    rjs_value_stack_restore(rt, top);
}
static char *
slurp (const char *fn, size_t *len)
{
    FILE *f = fopen(fn, "rb");
    if (!f) { perror(fn); exit(3); }
    fseek(f, 0, SEEK_END);
    size_t n = ftell(f);
    fseek(f, 0, SEEK_SET);
    char *b = malloc(n + 1);
    if (fread(b, 1, n, f) != n) exit(3);
    b[n] = 0;
    fclose(f);
    *len = n;
    return b;
}
int
main (int argc, char **argv)
{
    int i;
    RJS_Runtime *rt = rt_ = rjs_runtime_new();
    rjs_log_set_level(RJS_LOG_FATAL);
#if ENABLE_EXTENSION
    rjs_realm_load_extension(rt, NULL);
#endif
#if ENABLE_MODULE
    rjs_set_module_lookup_func(rt, mod_lookup);
    rjs_set_module_load_func(rt, mod_load);
#endif
    fns = rjs_value_stack_push(rt); finals = rjs_value_stack_push(rt); mods = rjs_value_stack_push(rt);
    rjs_array_new(rt, fns, 0, NULL); rjs_array_new(rt, finals, 0, NULL); rjs_array_new(rt, mods, 0, NULL);
    def("symInt", h_symInt); def("symNum", h_symNum); def("symBool", h_symBool); def("symStr", h_symStr);
    def("assume", h_assume); def("check", h_check); def("checkKnown", h_checkKnown); def("eq", h_eq); def("conc", h_conc); def("fail", h_fail); def("note", h_note);
    def("gc", h_gc); def("gcAt", h_gcAt); def("drain", h_drain); def("numBits", h_bits); def("refInt32", h_refInt32); def("ref", h_ref);
    def("parseOnly", h_parse); def("runScript", h_script); def("scenario", h_scenario); def("final", h_final); def("defModule", h_defmod);
    for (i = 1; i < argc && argv[i][0] != '-'; i++) {
        size_t n, top = rjs_value_stack_save(rt);
        char *s = slurp(argv[i], &n);
        RJS_Value *str = rjs_value_stack_push(rt), *sc = rjs_value_stack_push(rt), *e = rjs_value_stack_push(rt), *es = rjs_value_stack_push(rt);
        rjs_string_from_enc_chars(rt, str, s, n, NULL);
        free(s);
        if (rjs_script_from_string(rt, sc, str, rjs_realm_current(rt), RJS_FALSE) == RJS_ERR || rjs_script_evaluation(rt, sc, NULL) == RJS_ERR) {
            rjs_catch(rt, e);
            rjs_to_string(rt, e, es);
            fprintf(stderr, "%s: %s\n", argv[i], rjs_string_to_enc_chars(rt, es, NULL, NULL));
            rjs_dump_error_stack(rt, stderr);
            return 3;
        }
        rjs_value_stack_restore(rt, top);
        rjs_solve_jobs(rt);
    }
    rsx_concrete_region(&rt->mem_size, sizeof(rt->mem_size) + sizeof(rt->mem_max_size));
    rjs_gc_run(rt);
    return rsx_main(argc - i + 1, argv + i - 1, nscn, (const char **)names, timeouts, run);
}
