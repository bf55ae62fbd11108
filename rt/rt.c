// libc for the symbolic engine: every function X is defined as vx_X and stands in for the undefined X of the code under test.
// Written to build expressions rather than to fork where that is cheap.
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <limits.h>
#include <errno.h>
#include <time.h>
#include "vh.h"
long vh_strlen_fast(const char *s);
int vh_strncmp_expr(const char *a, const char *b, uint64_t n, int icase, int *ok);
int vh_fmt_double(char *buf, size_t size, const char *fmt, double d);
double vh_strtod(const char *s, uint64_t *off);
void *malloc(size_t n); void free(void *p); void *memcpy(void *d, const void *s, size_t n); void *memset(void *d, int c, size_t n);

static int vx_errno_v;
int *vx___errno_location(void) { return &vx_errno_v; }

// ---- strings
size_t vx_strlen(const char *s) { long r = vh_strlen_fast(s); if (r >= 0) return (size_t)r; size_t n = 0; while (s[n]) n++; return n; }
size_t vx_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
static int cmpGen(const char *a, const char *b, size_t n, int ic)
{
    int ok = 0; int r = vh_strncmp_expr(a, b, n, ic, &ok);
    if (ok) return r;
    for (size_t i = 0; i < n; i++)
    {
        unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
        if (ic) { if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; }
        if (x != y) return (int)x - (int)y;
        if (!x) return 0;
    }
    return 0;
}
int vx_strcmp(const char *a, const char *b) { return cmpGen(a, b, SIZE_MAX, 0); }
int vx_strncmp(const char *a, const char *b, size_t n) { return cmpGen(a, b, n, 0); }
int vx_strcasecmp(const char *a, const char *b) { return cmpGen(a, b, SIZE_MAX, 1); }
int vx_strncasecmp(const char *a, const char *b, size_t n) { return cmpGen(a, b, n, 1); }
void *vx_memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return 0; }
void *vx_memrchr(const void *p, int c, size_t n) { const unsigned char *s = p; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return 0; }
char *vx_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *vx_strrchr(const char *s, int c) { size_t n = vx_strlen(s) + 1; while (n--) if (s[n] == (char)c) return (char *)s + n; return 0; }
char *vx_strstr(const char *h, const char *n) { size_t l = vx_strlen(n); if (!l) return (char *)h; size_t hl = vx_strlen(h); for (size_t i = 0; i + l <= hl; i++) { if (vx_strncmp(h + i, n, l) == 0) return (char *)h + i; } return 0; }
char *vx_stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *vx_strdup(const char *s) { size_t n = vx_strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }
char *vx_strcpy(char *d, const char *s) { memcpy(d, s, vx_strlen(s) + 1); return d; }
size_t vx_strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && vx_strchr(a, s[n])) n++; return n; }
size_t vx_strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !vx_strchr(a, s[n])) n++; return n; }

// ---- ctype (C locale)
#define _U 0x100
#define _L 0x200
#define _A 0x400
#define _D 0x800
#define _X 0x1000
#define _S 0x2000
#define _P 0x4000
#define _G 0x8000
#define _B 0x1
#define _C 0x2
#define _PU 0x4
#define _AN 0x8
static unsigned short ctypeB[384]; static int ctypeLow[384], ctypeUp[384]; static const unsigned short *ctypeBp; static const int *ctypeLp, *ctypeUp_; static int ctypeInit;
static void ctypeDo(void)
{
    if (ctypeInit) return;
    ctypeInit = 1;
    for (int c = 0; c < 384; c++)
    {
        int ch = c - 128; unsigned short f = 0;
        if (ch >= 0 && ch < 128)
        {
            if (ch >= 'A' && ch <= 'Z') f |= _U | _A | _P | _G | _AN;
            if (ch >= 'a' && ch <= 'z') f |= _L | _A | _P | _G | _AN;
            if (ch >= '0' && ch <= '9') f |= _D | _X | _P | _G | _AN;
            if ((ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F')) f |= _X;
            if (ch == ' ' || (ch >= 9 && ch <= 13)) f |= _S;
            if (ch == ' ' || ch == 9) f |= _B;
            if (ch == ' ') f |= _P;
            if (ch < 32 || ch == 127) f |= _C;
            if (ch > 32 && ch < 127 && !(f & _AN)) f |= _PU | _P | _G;
        }
        ctypeB[c] = f;
        ctypeLow[c] = ch >= 'A' && ch <= 'Z' ? ch + 32 : ch; ctypeUp[c] = ch >= 'a' && ch <= 'z' ? ch - 32 : ch;
    }
    ctypeBp = ctypeB + 128; ctypeLp = ctypeLow + 128; ctypeUp_ = ctypeUp + 128;
}
const unsigned short **vx___ctype_b_loc(void) { ctypeDo(); return &ctypeBp; }
const int **vx___ctype_tolower_loc(void) { ctypeDo(); return &ctypeLp; }
const int **vx___ctype_toupper_loc(void) { ctypeDo(); return &ctypeUp_; }
int vx_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vx_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

// ---- integer conversion
static int isSp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned digVal(unsigned char c) // branch-free; 99 when not a digit
{
    unsigned d = c - '0', a = (unsigned char)(c | 32) - 'a';
    uint64_t r = vh_ite(d < 10, d, vh_ite(a < 26, a + 10, 99));
    return (unsigned)r;
}
static uint64_t strtoGen(const char *s, char **end, int base, int sgn, uint64_t maxPos, uint64_t maxNeg)
{
    const char *p = s; int neg = 0;
    while (isSp(*p)) p++;
    if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digVal((unsigned char)p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    const char *d0 = p; uint64_t v = 0; int over = 0; unsigned cnt = 0;
    // Number of digits that cannot overflow 64 bits
    unsigned safe = base == 10 ? 19 : base == 16 ? 16 : base == 8 ? 21 : base == 2 ? 64 : 12;
    for (;; p++)
    {
        unsigned d = digVal((unsigned char)*p);
        if (d >= (unsigned)base) break;
        if (cnt < safe) v = v * (unsigned)base + d;
        else if (over || v > UINT64_MAX / (unsigned)base || v * (unsigned)base > UINT64_MAX - d) over = 1;
        else v = v * (unsigned)base + d;
        cnt++;
    }
    if (p == d0) { if (end) *end = (char *)s; return 0; }
    if (end) *end = (char *)p;
    if (sgn)
    {
        uint64_t lim = neg ? maxNeg : maxPos;
        if (over || v > lim) { vx_errno_v = ERANGE; return neg ? (uint64_t)0 - maxNeg : maxPos; }
        return neg ? (uint64_t)0 - v : v;
    }
    if (over || v > maxPos) { vx_errno_v = ERANGE; return maxPos; }
    return neg ? (uint64_t)0 - v : v;
}
long vx_strtol(const char *s, char **e, int b) { return (long)strtoGen(s, e, b, 1, LONG_MAX, (uint64_t)LONG_MAX + 1); }
long long vx_strtoll(const char *s, char **e, int b) { return (long long)strtoGen(s, e, b, 1, LONG_MAX, (uint64_t)LONG_MAX + 1); }
unsigned long vx_strtoul(const char *s, char **e, int b) { return strtoGen(s, e, b, 0, ULONG_MAX, 0); }
unsigned long long vx_strtoull(const char *s, char **e, int b) { return strtoGen(s, e, b, 0, ULONG_MAX, 0); }
long vx___isoc23_strtol(const char *s, char **e, int b) { return vx_strtol(s, e, b); }
long long vx___isoc23_strtoll(const char *s, char **e, int b) { return vx_strtoll(s, e, b); }
unsigned long vx___isoc23_strtoul(const char *s, char **e, int b) { return vx_strtoul(s, e, b); }
unsigned long long vx___isoc23_strtoull(const char *s, char **e, int b) { return vx_strtoull(s, e, b); }
int vx_atoi(const char *s) { return (int)vx_strtol(s, 0, 10); }
double vx_strtod(const char *s, char **e) { uint64_t off; double d = vh_strtod(s, &off); if (e) *e = (char *)s + off; return d; }
int vx_abs(int v) { return v < 0 ? -v : v; }
long vx_labs(long v) { return v < 0 ? -v : v; }

// ---- formatted output
typedef struct Out { char *b; size_t n, sz; } Out;
static void oc(Out *o, char c) { if (o->n + 1 < o->sz) o->b[o->n] = c; o->n++; }
static void on(Out *o, const char *s, size_t n)
{
    if (o->n + n + 1 <= o->sz) { memcpy(o->b + o->n, s, n); o->n += n; return; }
    for (size_t i = 0; i < n; i++) oc(o, s[i]);
}
static unsigned fmtU(char *buf, uint64_t v, unsigned base, int upper) // returns the length; buf is filled from the start
{
    char t[66]; unsigned n = 0;
    if (!vh_is_symbolic(v))
    {
        do { unsigned d = (unsigned)(v % base); t[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v /= base; } while (v);
        for (unsigned i = 0; i < n; i++) buf[i] = t[n - 1 - i];
        return n;
    }
    if (base == 16)
    {
        n = 1; while (n < 16 && (v >> (4 * n)) != 0) n++;
        for (unsigned i = 0; i < n; i++) { unsigned d = (unsigned)(v >> (4 * (n - 1 - i))) & 15; buf[i] = (char)vh_ite(d < 10, '0' + d, (upper ? 'A' : 'a') + d - 10); }
        return n;
    }
    if (base == 8)
    {
        n = 1; while (n < 22 && (v >> (3 * n)) != 0) n++;
        for (unsigned i = 0; i < n; i++) buf[i] = (char)('0' + ((v >> (3 * (n - 1 - i))) & 7));
        return n;
    }
    uint64_t p = 10; n = 1;
    while (n < 20 && v >= p) { n++; if (n == 20) break; p *= 10; }
    if (v <= 0xffff) { uint16_t w = (uint16_t)v; for (unsigned i = n; i-- > 0;) { buf[i] = (char)('0' + w % 10); w /= 10; } }
    else if (v <= 0xffffffff) { uint32_t w = (uint32_t)v; for (unsigned i = n; i-- > 0;) { buf[i] = (char)('0' + w % 10); w /= 10; } }
    else for (unsigned i = n; i-- > 0;) { buf[i] = (char)('0' + v % 10); v /= 10; }
    return n;
}
int vx_vsnprintf(char *buf, size_t size, const char *f, va_list ap)
{
    Out o = {buf, 0, size};
    for (; *f; f++)
    {
        if (*f != '%') { oc(&o, *f); continue; }
        const char *spec = f; f++;
        int left = 0, zero = 0, plus = 0, space = 0, alt = 0; long width = 0, prec = -1; int lng = 0;
        for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') lng--; else break; }
        char tmp[80]; const char *s = tmp; size_t n = 0; char sign = 0; const char *pre = ""; 
        switch (*f)
        {
            case 'd': case 'i':
            {
                int64_t v = lng >= 1 ? va_arg(ap, long) : va_arg(ap, int);
                if (lng == -1) v = (short)v; else if (lng == -2) v = (signed char)v;
                uint64_t u = (uint64_t)v;
                if (v < 0) { sign = '-'; u = (uint64_t)0 - u; } else if (plus) sign = '+'; else if (space) sign = ' ';
                n = fmtU(tmp, u, 10, 0); if (prec == 0 && u == 0) n = 0; break;
            }
            case 'u': case 'x': case 'X': case 'o':
            {
                uint64_t v = lng >= 1 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
                if (lng == -1) v = (unsigned short)v; else if (lng == -2) v = (unsigned char)v;
                n = fmtU(tmp, v, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X');
                if (alt && v) pre = *f == 'x' ? "0x" : *f == 'X' ? "0X" : "0"; if (prec == 0 && v == 0) n = 0; break;
            }
            case 'p': { uint64_t v = (uint64_t)va_arg(ap, void *); pre = "0x"; n = fmtU(tmp, v, 16, 0); break; }
            case 'c': tmp[0] = (char)va_arg(ap, int); n = 1; zero = 0; break;
            case 's': s = va_arg(ap, const char *); if (!s) s = "(null)"; n = prec >= 0 ? vx_strnlen(s, (size_t)prec) : vx_strlen(s); prec = -1; zero = 0; break;
            case '%': oc(&o, '%'); continue;
            case 'f': case 'g': case 'e':
            {
                char fm[32]; size_t l = 0; for (const char *q = spec; q <= f && l < 31; q++) { if (*q == '*') { l += fmtU(fm + l, (uint64_t)(q[-1] == '.' ? prec : width), 10, 0); } else if (*q != 'l') fm[l++] = *q; } fm[l] = 0;
                n = (size_t)vh_fmt_double(tmp, sizeof(tmp), fm, va_arg(ap, double)); width = 0; prec = -1; break;
            }
            default: vh_fail("printf format not modelled");
        }
        size_t digits = n, preL = vx_strlen(pre), padZ = 0;
        if (prec >= 0 && (size_t)prec > digits) padZ = (size_t)prec - digits;
        size_t tot = digits + padZ + preL + (sign ? 1 : 0);
        if (zero && !left && prec < 0 && tot < (size_t)width) { padZ += (size_t)width - tot; tot = (size_t)width; }
        if (!left) for (size_t i = tot; i < (size_t)width; i++) oc(&o, ' ');
        if (sign) oc(&o, sign);
        on(&o, pre, preL);
        for (size_t i = 0; i < padZ; i++) oc(&o, '0');
        on(&o, s, n);
        if (left) for (size_t i = tot; i < (size_t)width; i++) oc(&o, ' ');
    }
    if (size) buf[o.n < size ? o.n : size - 1] = 0;
    return (int)o.n;
}
int vx_snprintf(char *buf, size_t size, const char *f, ...) { va_list ap; va_start(ap, f); int r = vx_vsnprintf(buf, size, f, ap); va_end(ap); return r; }
typedef struct _IO_FILE FILE_;
void *vx_stderr_obj[4];
int vx_fprintf(void *fp, const char *f, ...) { (void)fp; (void)f; return 0; }
int vx_printf(const char *f, ...) { (void)f; return 0; }
int vx_fflush(void *fp) { (void)fp; return 0; }
int vx_fputs(const char *s, void *fp) { (void)s; (void)fp; return 0; }
int vx_fputc(int c, void *fp) { (void)fp; return c; }
size_t vx_fwrite(const void *p, size_t s, size_t n, void *fp) { (void)p; (void)s; (void)fp; return n; }
char *vx_strerror(int e)
{
    switch (e) { case ENOENT: return "No such file or directory"; case EACCES: return "Permission denied"; case EEXIST: return "File exists"; case ENOTDIR: return "Not a directory"; case EIO: return "Input/output error"; case EINVAL: return "Invalid argument"; case EINTR: return "Interrupted system call"; case ENOSPC: return "No space left on device"; case ENOTEMPTY: return "Directory not empty"; case EISDIR: return "Is a directory"; case EWOULDBLOCK: return "Resource temporarily unavailable"; case EPERM: return "Operation not permitted"; case EBADF: return "Bad file descriptor"; case ERANGE: return "Numerical result out of range"; }
    return "Unknown error";
}
// ---- sort (stable merge, as glibc)
static void msort(char *a, size_t n, size_t sz, int (*cmp)(const void *, const void *), char *tmp)
{
    if (n < 2) return;
    size_t h = n / 2; char *b = a + h * sz;
    msort(a, h, sz, cmp, tmp); msort(b, n - h, sz, cmp, tmp);
    size_t i = 0, j = 0, k = 0;
    while (i < h && j < n - h) { if (cmp(a + i * sz, b + j * sz) <= 0) { memcpy(tmp + k++ * sz, a + i++ * sz, sz); } else { memcpy(tmp + k++ * sz, b + j++ * sz, sz); } }
    if (i < h) { memcpy(tmp + k * sz, a + i * sz, (h - i) * sz); k += h - i; }
    memcpy(a, tmp, k * sz);
}
void vx_qsort(void *a, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { if (n < 2) return; char *t = malloc(n * sz); msort(a, n, sz, cmp, t); free(t); }
void *vx_bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    size_t lo = 0, hi = n;
    while (lo < hi) { size_t m = (lo + hi) / 2; int r = cmp(key, (const char *)base + m * sz); if (r == 0) return (char *)base + m * sz; if (r < 0) hi = m; else lo = m + 1; }
    return 0;
}
// ---- time (UTC)
static int64_t daysFromCivil(int64_t y, unsigned m, unsigned d)
{
    y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}
struct tm *vx_gmtime_r(const time_t *t, struct tm *o)
{
    int64_t v = *t, days = v / 86400, rem = v % 86400; if (rem < 0) { rem += 86400; days--; }
    int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t y = (int64_t)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    y += m <= 2;
    memset(o, 0, sizeof *o);
    o->tm_year = (int)(y - 1900); o->tm_mon = (int)m - 1; o->tm_mday = (int)d; o->tm_hour = (int)(rem / 3600); o->tm_min = (int)(rem / 60 % 60); o->tm_sec = (int)(rem % 60);
    o->tm_wday = (int)((days % 7 + 11) % 7); o->tm_yday = (int)(days - daysFromCivil(y, 1, 1)); o->tm_zone = "GMT";
    return o;
}
struct tm *vx_localtime_r(const time_t *t, struct tm *o) { vx_gmtime_r(t, o); o->tm_zone = "UTC"; return o; }
time_t vx_mktime(struct tm *t)
{
    int64_t mon = t->tm_mon, y = (int64_t)t->tm_year + 1900 + mon / 12; mon %= 12; if (mon < 0) { mon += 12; y--; }
    time_t r = (daysFromCivil(y, (unsigned)mon + 1, 1) + t->tm_mday - 1) * 86400 + (int64_t)t->tm_hour * 3600 + (int64_t)t->tm_min * 60 + t->tm_sec;
    vx_localtime_r(&r, t); return r;
}
time_t vx_timegm(struct tm *t) { return vx_mktime(t); }
void vx_tzset(void) {}
static const char *const dayN[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const char *const monN[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static void o2(Out *o, int v, int w) { char t[24]; unsigned n = fmtU(t, (uint64_t)v, 10, 0); for (unsigned i = n; (int)i < w; i++) oc(o, '0'); on(o, t, n); }
size_t vx_strftime(char *b, size_t max, const char *f, const struct tm *t)
{
    Out o = {b, 0, max};
    for (; *f; f++)
    {
        if (*f != '%') { oc(&o, *f); continue; }
        switch (*++f)
        {
            case 'Y': o2(&o, t->tm_year + 1900, 1); break; case 'm': o2(&o, t->tm_mon + 1, 2); break; case 'd': o2(&o, t->tm_mday, 2); break;
            case 'H': o2(&o, t->tm_hour, 2); break; case 'M': o2(&o, t->tm_min, 2); break; case 'S': o2(&o, t->tm_sec, 2); break;
            case 'a': on(&o, dayN[t->tm_wday], 3); break; case 'b': on(&o, monN[t->tm_mon], 3); break;
            case 'z': on(&o, "+0000", 5); break; case 'Z': on(&o, t->tm_zone ? t->tm_zone : "UTC", vx_strlen(t->tm_zone ? t->tm_zone : "UTC")); break; case '%': oc(&o, '%'); break;
            case 'F': o2(&o, t->tm_year + 1900, 1); oc(&o, '-'); o2(&o, t->tm_mon + 1, 2); oc(&o, '-'); o2(&o, t->tm_mday, 2); break;
            case 'T': o2(&o, t->tm_hour, 2); oc(&o, ':'); o2(&o, t->tm_min, 2); oc(&o, ':'); o2(&o, t->tm_sec, 2); break;
            default: vh_fail("strftime format not modelled");
        }
    }
    if (o.n >= max) return 0;
    b[o.n] = 0; return o.n;
}
// ---- POSIX extended regular expressions: Thompson NFA simulated with boolean state expressions (no forking per character)
#define RX_MAX 400
typedef struct { uint8_t op; uint8_t neg; int16_t x, y; uint32_t set[8]; } RxI;   // op: 0 class, 1 split, 2 jmp, 3 bol, 4 eol, 5 match
typedef struct { int n; RxI i[RX_MAX]; } RxProg;
typedef struct { const char *p; RxProg *g; int err; } RxC;
static void rxAlt(RxC *c);
static int rxEmit(RxC *c, int op) { if (c->g->n >= RX_MAX) vh_fail("regular expression too large for the model"); RxI *i = &c->g->i[c->g->n]; memset(i, 0, sizeof *i); i->op = (uint8_t)op; return c->g->n++; }
static void rxSet(RxI *i, unsigned ch) { i->set[ch >> 5] |= 1u << (ch & 31); }
static void rxAtom(RxC *c)
{
    char ch = *c->p;
    if (ch == '(') { c->p++; rxAlt(c); if (*c->p == ')') c->p++; else c->err = 1; return; }
    if (ch == '^') { c->p++; rxEmit(c, 3); return; }
    if (ch == '$') { c->p++; rxEmit(c, 4); return; }
    if (ch == '[')
    {
        int k = rxEmit(c, 0); RxI *i = &c->g->i[k]; int neg = 0, first = 1; c->p++;
        if (*c->p == '^') { neg = 1; c->p++; }
        while (*c->p && (*c->p != ']' || first))
        {
            first = 0; unsigned lo = (unsigned char)*c->p++, hi = lo;
            if (c->p[0] == '-' && c->p[1] && c->p[1] != ']') { hi = (unsigned char)c->p[1]; c->p += 2; }
            for (unsigned x = lo; x <= hi; x++) rxSet(i, x);
        }
        if (*c->p == ']') c->p++; else c->err = 1;
        if (neg) for (int z = 0; z < 8; z++) i->set[z] = ~i->set[z];
        i->set[0] &= ~1u;
        return;
    }
    int k = rxEmit(c, 0); RxI *i = &c->g->i[k]; c->p++;
    if (ch == '.') { for (int z = 0; z < 8; z++) i->set[z] = ~0u; i->set[0] &= ~1u; return; }
    if (ch == '\\') { ch = *c->p; if (!ch) { c->err = 1; return; } c->p++; }
    if (ch == '*' || ch == '+' || ch == '?' ) { if (c->p[-2] != '\\') c->err = 1; }
    rxSet(i, (unsigned char)ch);
}
static int rxCopy(RxC *c, int from, int len) { int at = c->g->n; for (int k = 0; k < len; k++) { int z = rxEmit(c, 0); c->g->i[z] = c->g->i[from + k]; if (c->g->i[z].op == 1 || c->g->i[z].op == 2) { c->g->i[z].x = (int16_t)(c->g->i[z].x + at - from); c->g->i[z].y = (int16_t)(c->g->i[z].y + at - from); } } return at; }
static void rxShift(RxC *c, int from) { rxEmit(c, 0); for (int k = c->g->n - 1; k > from; k--) { c->g->i[k] = c->g->i[k - 1]; if (c->g->i[k].op == 1 || c->g->i[k].op == 2) { c->g->i[k].x++; c->g->i[k].y++; } } memset(&c->g->i[from], 0, sizeof(RxI)); }
static void rxPiece(RxC *c)
{
    int s = c->g->n; rxAtom(c);
    for (;;)
    {
        int len = c->g->n - s; char ch = *c->p;
        if (ch == '*') { c->p++; rxShift(c, s); c->g->i[s].op = 1; c->g->i[s].x = (int16_t)(s + 1); int j = rxEmit(c, 2); c->g->i[j].x = (int16_t)s; c->g->i[s].y = (int16_t)c->g->n; }
        else if (ch == '+') { c->p++; int j = rxEmit(c, 1); c->g->i[j].x = (int16_t)s; c->g->i[j].y = (int16_t)c->g->n; }
        else if (ch == '?') { c->p++; rxShift(c, s); c->g->i[s].op = 1; c->g->i[s].x = (int16_t)(s + 1); c->g->i[s].y = (int16_t)c->g->n; }
        else if (ch == '{')
        {
            c->p++; int lo = 0, hi; while (*c->p >= '0' && *c->p <= '9') lo = lo * 10 + (*c->p++ - '0');
            hi = lo; if (*c->p == ',') { c->p++; if (*c->p == '}') hi = -1; else { hi = 0; while (*c->p >= '0' && *c->p <= '9') hi = hi * 10 + (*c->p++ - '0'); } }
            if (*c->p == '}') c->p++; else c->err = 1;
            if (lo == 0)
            {
                if (hi == 0) { c->g->n = s; continue; }
                rxShift(c, s); c->g->i[s].op = 1; c->g->i[s].x = (int16_t)(s + 1);
                if (hi < 0) { int j = rxEmit(c, 2); c->g->i[j].x = (int16_t)s; }
                c->g->i[s].y = (int16_t)c->g->n;
                for (int k = 1; k < hi; k++) { int j = rxEmit(c, 1); c->g->i[j].x = (int16_t)(j + 1); rxCopy(c, s + 1, len); c->g->i[j].y = (int16_t)c->g->n; }
                continue;
            }
            int at = s;
            for (int k = 1; k < lo; k++) at = rxCopy(c, s, len);
            if (hi < 0) { int j = rxEmit(c, 1); c->g->i[j].x = (int16_t)at; c->g->i[j].y = (int16_t)c->g->n; }
            for (int k = lo; k < hi; k++) { int j = rxEmit(c, 1); c->g->i[j].x = (int16_t)(j + 1); rxCopy(c, s, len); c->g->i[j].y = (int16_t)c->g->n; }
        }
        else break;
    }
}
static void rxAlt(RxC *c)
{
    int s = c->g->n;
    while (*c->p && *c->p != '|' && *c->p != ')' && !c->err) rxPiece(c);
    while (*c->p == '|' && !c->err)
    {
        c->p++; rxShift(c, s); c->g->i[s].op = 1; c->g->i[s].x = (int16_t)(s + 1); int j = rxEmit(c, 2); c->g->i[s].y = (int16_t)c->g->n;
        int b = c->g->n; (void)b;
        rxAlt(c);
        c->g->i[j].x = (int16_t)c->g->n;
    }
}
int vx_regcomp(void **rx, const char *pat, int flags) // regex_t's first word holds the program
{
    (void)flags; RxProg *g = malloc(sizeof *g); g->n = 0; RxC c = {pat, g, 0};
    rxAlt(&c);
    if (*c.p || c.err) { free(g); return 2; }
    rxEmit(&c, 5); rx[0] = g; return 0;
}
// Activate instruction k (and its epsilon closure) when condition v holds
static void rxAdd(RxProg *g, uint8_t *act, int k, uint8_t v, int bol, int eol, int depth)
{
    if (!vh_is_symbolic(v) && !v) return;
    if (depth > 60) return;
    uint8_t old = act[k];
    if (!vh_is_symbolic(old) && old) return;
    act[k] = old | v;
    RxI *i = &g->i[k];
    if (i->op == 1) { rxAdd(g, act, i->x, v, bol, eol, depth + 1); rxAdd(g, act, i->y, v, bol, eol, depth + 1); }
    else if (i->op == 2) rxAdd(g, act, i->x, v, bol, eol, depth + 1);
    else if (i->op == 3) { if (bol) rxAdd(g, act, k + 1, v, bol, eol, depth + 1); }
    else if (i->op == 4) { if (eol) rxAdd(g, act, k + 1, v, bol, eol, depth + 1); }
}
static uint8_t rxIn(RxI *i, unsigned char ch)
{
    if (!vh_is_symbolic(ch)) return (i->set[ch >> 5] >> (ch & 31)) & 1;
    uint8_t r = 0;
    for (unsigned x = 1; x < 256; x++) if ((i->set[x >> 5] >> (x & 31)) & 1) { unsigned y = x; while (y + 1 < 256 && ((i->set[(y + 1) >> 5] >> ((y + 1) & 31)) & 1)) y++; r |= (uint8_t)((uint8_t)(ch - x) <= (uint8_t)(y - x)); x = y + 1; }
    return r;
}
int vx_regexec(void **rx, const char *s, size_t nm, void *pm, int fl)
{
    (void)nm; (void)pm; (void)fl; RxProg *g = rx[0]; size_t n = vx_strlen(s); uint8_t *cur = malloc((size_t)g->n), *nxt = malloc((size_t)g->n), found = 0;
    memset(cur, 0, (size_t)g->n);
    for (size_t p = 0; p <= n; p++)
    {
        rxAdd(g, cur, 0, 1, p == 0, p == n, 0);
        found |= cur[g->n - 1];
        if (p == n || (!vh_is_symbolic(found) && found)) break;
        memset(nxt, 0, (size_t)g->n);
        for (int k = 0; k < g->n; k++) { if (g->i[k].op != 0) continue; uint8_t v = cur[k]; if (!vh_is_symbolic(v) && !v) continue; v &= rxIn(&g->i[k], (unsigned char)s[p]); rxAdd(g, nxt, k + 1, v, 0, p + 1 == n, 0); }
        uint8_t *t = cur; cur = nxt; nxt = t;
    }
    free(cur); free(nxt);
    return found ? 0 : 1;
}
void vx_regfree(void **rx) { free(rx[0]); rx[0] = 0; }
size_t vx_regerror(int e, void *rx, char *b, size_t n) { (void)rx; return (size_t)vx_snprintf(b, n, "regex error %d", e) + 1; }
