/* libc subset for the symx engine (executed symbolically like everything else).
 * Not part of the native replay, which uses the real libc. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
#include <errno.h>
void *malloc(size_t); void free(void *); size_t strlen(const char *); void *memcpy(void *, const void *, size_t);
char *strcpy(char *d, const char *s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) break; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return NULL; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
size_t strcspn(const char *s, const char *r) { size_t i = 0; for (;; i++) { int hit = s[i] == 0; for (size_t j = 0; r[j]; j++) hit |= s[i] == r[j]; if (hit) return i; } }
size_t strspn(const char *s, const char *r) { size_t i = 0; for (;; i++) { int hit = 0; for (size_t j = 0; r[j]; j++) hit |= s[i] == r[j]; if (!hit) return i; } }
char *strpbrk(const char *s, const char *r) { s += strcspn(s, r); return *s ? (char *)s : NULL; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { size_t i = 0; for (; i < l; i++) if (h[i] != n[i]) break; if (i == l) return (char *)h; if (!*h) return NULL; } }
char *strdup(const char *s) { size_t l = strlen(s); char *p = malloc(l + 1); if (p) memcpy(p, s, l + 1); return p; }
char *strtok_r(char *s, const char *d, char **sv)
{
    if (!s) s = *sv;
    if (!s) return NULL;
    s += strspn(s, d);
    if (!*s) { *sv = s; return NULL; }
    char *e = s + strcspn(s, d);
    if (*e) { *e = 0; *sv = e + 1; } else *sv = e;
    return s;
}
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
static unsigned short ctab[384];
static const unsigned short *ctabp;
const unsigned short **__ctype_b_loc(void)
{
    if (!ctabp) {
        for (int c = 0; c < 128; c++) {
            unsigned short m = 0;
            if (isupper(c)) m |= 256;
            if (islower(c)) m |= 512;
            if (isalpha(c)) m |= 1024;
            if (isdigit(c)) m |= 2048;
            if (isxdigit(c)) m |= 4096;
            if (isspace(c)) m |= 8192;
            if (isprint(c)) m |= 16384;
            if (c == ' ' || c == 9) m |= 1;
            if (isalnum(c)) m |= 8;
            ctab[128 + c] = m;
        }
        ctabp = ctab + 128;
    }
    return &ctabp;
}
static int32_t ltab[384], utab[384];
static const int32_t *ltabp, *utabp;
const int32_t **__ctype_tolower_loc(void) { if (!ltabp) { for (int c = -128; c < 256; c++) ltab[c + 128] = tolower(c); ltabp = ltab + 128; } return &ltabp; }
const int32_t **__ctype_toupper_loc(void) { if (!utabp) { for (int c = -128; c < 256; c++) utab[c + 128] = toupper(c); utabp = utab + 128; } return &utabp; }
static unsigned long long pnum(const char *s, char **end, int base, int *neg, int *any, int *ovf)
{
    const char *p = s;
    unsigned long long v = 0;
    *neg = *any = *ovf = 0;
    while (isspace((unsigned char)*p)) p++;
    if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    for (;; p++) {
        int d, c = (unsigned char)*p;
        if (isdigit(c)) d = c - '0';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else break;
        if (d >= base) break;
        *any = 1;
        if (v > (ULLONG_MAX - d) / base) *ovf = 1;
        v = v * base + d;
    }
    if (end) *end = (char *)(*any ? p : s);
    return v;
}
long strtol(const char *s, char **end, int base)
{
    int n, a, o;
    unsigned long long v = pnum(s, end, base, &n, &a, &o);
    if (o || (!n && v > LONG_MAX) || (n && v > (unsigned long long)LONG_MAX + 1)) { errno = ERANGE; return n ? LONG_MIN : LONG_MAX; }
    return n ? (long)-v : (long)v;
}
unsigned long strtoul(const char *s, char **end, int base)
{
    int n, a, o;
    unsigned long long v = pnum(s, end, base, &n, &a, &o);
    if (o) { errno = ERANGE; return ULONG_MAX; }
    return n ? -v : v;
}
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
/* newer glibc headers redirect to these */
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }

#define PUT(c) do { if (o + 1 < n) buf[o] = (c); o++; } while (0)
int vsnprintf(char *buf, size_t n, const char *fmt, va_list ap)
{
    size_t o = 0;
    for (; *fmt; fmt++) {
        if (*fmt != '%') { PUT(*fmt); continue; }
        fmt++;
        int zero = 0, left = 0, width = 0, prec = -1, lng = 0, alt = 0, plus = 0;
        for (;; fmt++) { if (*fmt == '0') zero = 1; else if (*fmt == '-') left = 1; else if (*fmt == '#') alt = 1; else if (*fmt == '+') plus = 1; else break; }
        if (*fmt == '*') { width = va_arg(ap, int); fmt++; } else while (*fmt >= '0' && *fmt <= '9') width = width * 10 + (*fmt++ - '0');
        if (*fmt == '.') { fmt++; prec = 0; if (*fmt == '*') { prec = va_arg(ap, int); fmt++; } else while (*fmt >= '0' && *fmt <= '9') prec = prec * 10 + (*fmt++ - '0'); }
        for (;; fmt++) { if (*fmt == 'l') lng++; else if (*fmt == 'z' || *fmt == 'j' || *fmt == 't') lng = 2; else if (*fmt == 'h') lng--; else break; }
        char tmp[32]; const char *s; size_t l; int neg = 0;
        switch (*fmt) {
        case '%': PUT('%'); continue;
        case 'c': tmp[0] = (char)va_arg(ap, int); s = tmp; l = 1; break;
        case 's':
            s = va_arg(ap, const char *);
            if (!s) s = "(null)";
            if (prec >= 0) { l = 0; while (l < (size_t)prec && s[l]) l++; } else l = strlen(s);
            break;
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': case 'o': {
            unsigned long long v;
            unsigned base = (*fmt == 'x' || *fmt == 'X' || *fmt == 'p') ? 16 : *fmt == 'o' ? 8 : 10;
            if (*fmt == 'd' || *fmt == 'i') { long long x = lng > 0 ? va_arg(ap, long long) : va_arg(ap, int); if (x < 0) { neg = 1; v = -(unsigned long long)x; } else v = x; }
            else if (*fmt == 'p') v = (unsigned long long)va_arg(ap, void *);
            else v = lng > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned int);
            if (lng == -1 && !neg) v &= 0xffff;
            if (lng == -2 && !neg) v &= 0xff;
            if (base == 16 && zero && width == 2 && !left && prec < 0 && !(v >> 8)) { /* "%02x" of a byte: no case split on the value */
                const char *h = *fmt == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
                PUT(h[(v >> 4) & 15]); PUT(h[v & 15]);
                continue;
            }
            char *p = tmp + sizeof tmp;
            const char *dg = *fmt == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
            do { *--p = dg[v % base]; v /= base; } while (v);
            while (prec > 0 && tmp + sizeof tmp - p < prec && p > tmp) *--p = '0';
            s = p; l = tmp + sizeof tmp - p;
            if (prec >= 0) zero = 0;
            if (*fmt == 'p') { PUT('0'); PUT('x'); }
            (void)alt; (void)plus;
            break; }
        default: PUT('%'); PUT(*fmt); if (!*fmt) fmt--; continue;
        }
        size_t tot = l + neg;
        if (!left && !zero) for (size_t i = tot; i < (size_t)width; i++) PUT(' ');
        if (neg) PUT('-');
        if (!left && zero) for (size_t i = tot; i < (size_t)width; i++) PUT('0');
        for (size_t i = 0; i < l; i++) PUT(s[i]);
        if (left) for (size_t i = tot; i < (size_t)width; i++) PUT(' ');
    }
    if (n) buf[o < n ? o : n - 1] = 0;
    return (int)o;
}
int snprintf(char *buf, size_t n, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vsnprintf(buf, n, fmt, ap); va_end(ap); return r; }
int sprintf(char *buf, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vsnprintf(buf, INT_MAX, fmt, ap); va_end(ap); return r; }
int fprintf(void *f, const char *fmt, ...) { return 0; }
int printf(const char *fmt, ...) { return 0; }
int puts(const char *s) { return 0; }
int fflush(void *f) { return 0; }
void *stderr, *stdout;
uint32_t htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t ntohl(uint32_t x) { return __builtin_bswap32(x); }
uint16_t htons(uint16_t x) { return __builtin_bswap16(x); }
uint16_t ntohs(uint16_t x) { return __builtin_bswap16(x); }
int abs(int x) { return x < 0 ? -x : x; }
