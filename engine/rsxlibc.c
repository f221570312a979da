// libc functions the engine calls, as code the pass instruments.
#include <stddef.h>
#define W(n) __asm__("__rsxw_" #n)
int rl_memcmp(const void *, const void *, size_t) W(memcmp);
int rl_memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = a, *q = b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int rl_bcmp(const void *, const void *, size_t) W(bcmp);
int rl_bcmp(const void *a, const void *b, size_t n) { const unsigned char *p = a, *q = b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return 1; return 0; }
size_t rl_strlen(const char *) W(strlen);
size_t rl_strlen(const char *s) { size_t i = 0; while (s[i]) { i++; __asm__ volatile("" ::: "memory"); } return i; }
int rl_strcmp(const char *, const char *) W(strcmp);
int rl_strcmp(const char *a, const char *b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int rl_strncmp(const char *, const char *, size_t) W(strncmp);
int rl_strncmp(const char *a, const char *b, size_t n) { size_t i = 0; if (!n) return 0; while (i + 1 < n && a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
char *rl_strchr(const char *, int) W(strchr);
char *rl_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *rl_strrchr(const char *, int) W(strrchr);
char *rl_strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *rl_memchr(const void *, int, size_t) W(memchr);
void *rl_memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
int rl_tolower(int) W(tolower);
int rl_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int rl_toupper(int) W(toupper);
int rl_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int rl_isdigit(int) W(isdigit);
int rl_isdigit(int c) { return c >= '0' && c <= '9'; }
int rl_isalpha(int) W(isalpha);
int rl_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int rl_isalnum(int) W(isalnum);
int rl_isalnum(int c) { return rl_isalpha(c) || rl_isdigit(c); }
int rl_isspace(int) W(isspace);
int rl_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int rl_strcasecmp(const char *, const char *) W(strcasecmp);
int rl_strcasecmp(const char *a, const char *b) { size_t i = 0; while (a[i] && lc((unsigned char)a[i]) == lc((unsigned char)b[i])) i++; return lc((unsigned char)a[i]) - lc((unsigned char)b[i]); }

// UTF-8 <-> UTF-16LE, well-formed prefix only (the caller hands the rest to the real converter)
void rl_utf8to16(char **tp, const char *tl, const char **sp, const char *sl) __asm__("rl_utf8to16");
void rl_utf8to16(char **tp, const char *tl, const char **sp, const char *sl) {
    char *t = *tp; const unsigned char *s = (const unsigned char *)*sp, *e = (const unsigned char *)sl;
    while (s < e && tl - t >= 4) {
        unsigned c = *s; unsigned short u[2]; int n = 1;
        if (c < 0x80) { u[0] = (unsigned short)c; s++; }
        else if (c >= 0xc2 && c < 0xe0 && e - s >= 2 && (s[1] & 0xc0) == 0x80) { u[0] = (unsigned short)((c & 0x1f) << 6 | (s[1] & 0x3f)); s += 2; }
        else if (c >= 0xe0 && c < 0xf0 && e - s >= 3 && (s[1] & 0xc0) == 0x80 && (s[2] & 0xc0) == 0x80) {
            unsigned v = (c & 15) << 12 | (s[1] & 0x3f) << 6 | (s[2] & 0x3f);
            if (v < 0x800 || (v >= 0xd800 && v <= 0xdfff)) break;
            u[0] = (unsigned short)v; s += 3;
        } else if (c >= 0xf0 && c < 0xf5 && e - s >= 4 && (s[1] & 0xc0) == 0x80 && (s[2] & 0xc0) == 0x80 && (s[3] & 0xc0) == 0x80) {
            unsigned v = (c & 7) << 18 | (s[1] & 0x3f) << 12 | (s[2] & 0x3f) << 6 | (s[3] & 0x3f);
            if (v < 0x10000 || v > 0x10ffff) break;
            v -= 0x10000; u[0] = (unsigned short)(0xd800 | v >> 10); u[1] = (unsigned short)(0xdc00 | (v & 0x3ff)); n = 2; s += 4;
        } else break;
        for (int i = 0; i < n; i++) { t[0] = (char)u[i]; t[1] = (char)(u[i] >> 8); t += 2; }
    }
    *tp = t; *sp = (const char *)s;
}
void rl_utf16to8(char **tp, const char *tl, const char **sp, const char *sl) __asm__("rl_utf16to8");
void rl_utf16to8(char **tp, const char *tl, const char **sp, const char *sl) {
    char *t = *tp; const unsigned char *s = (const unsigned char *)*sp, *e = (const unsigned char *)sl;
    while (e - s >= 2 && tl - t >= 4) {
        unsigned c = s[0] | s[1] << 8;
        if (c < 0x80) { *t++ = (char)c; s += 2; }
        else if (c < 0x800) { *t++ = (char)(0xc0 | c >> 6); *t++ = (char)(0x80 | (c & 0x3f)); s += 2; }
        else if (c < 0xd800 || c > 0xdfff) { *t++ = (char)(0xe0 | c >> 12); *t++ = (char)(0x80 | (c >> 6 & 0x3f)); *t++ = (char)(0x80 | (c & 0x3f)); s += 2; }
        else if (c < 0xdc00 && e - s >= 4) {
            unsigned d = s[2] | s[3] << 8;
            if (d < 0xdc00 || d > 0xdfff) break;
            unsigned v = 0x10000 + ((c & 0x3ff) << 10 | (d & 0x3ff));
            *t++ = (char)(0xf0 | v >> 18); *t++ = (char)(0x80 | (v >> 12 & 0x3f)); *t++ = (char)(0x80 | (v >> 6 & 0x3f)); *t++ = (char)(0x80 | (v & 0x3f)); s += 4;
        } else break;
    }
    *tp = t; *sp = (const char *)s;
}
double rl_nextafter(double, double) W(nextafter);
double rl_nextafter(double x, double y) {
    union { double d; unsigned long long u; } a;
    if (x != x || y != y) return x + y;
    if (x == y) return y;
    a.d = x;
    if (x == 0) { a.u = 1 | (y < 0 ? 1ull << 63 : 0); return a.d; }
    if ((x < y) == (x > 0)) a.u++; else a.u--;
    return a.d;
}
