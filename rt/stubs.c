// C models of the libc functions the code under test calls; linked into the symbolic program only.
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <sys/types.h>
#include "sym.h"
int sym_is_symbolic(uint64_t v); uint64_t sym_u64_hint(const char *name, uint64_t v);
typedef struct _FILE_ SF;
void *malloc(size_t); void free(void *); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && lc((unsigned char)*a) == lc((unsigned char)*b)) { a++; b++; } return lc((unsigned char)*a) - lc((unsigned char)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { while (n && *a && lc((unsigned char)*a) == lc((unsigned char)*b)) { a++; b++; n--; } return n ? lc((unsigned char)*a) - lc((unsigned char)*b) : 0; }
int memcmp(const void *x, const void *y, size_t n) // sixteen octets at a time, as numbers: no path for each octet
{
    const unsigned char *a = x, *b = y; int r = 0;
    for (size_t i = 0; i < n; i += 16) {
        unsigned __int128 p = 0, q = 0; for (size_t j = i; j < n && j < i + 16; j++) { p = p << 8 | a[j]; q = q << 8 | b[j]; }
        int d = p != q ? (p < q ? -1 : 1) : 0; r = i == 0 ? d : r == 0 ? d : r;
    }
    return r;
}
int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = n; i > 0; i--) if (p[i - 1] == (unsigned char)c) return (void *)(p + i - 1); return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c) { return c >= 32 && c < 127; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) { return lc(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static unsigned short ctab[384]; static const unsigned short *ctabp;
const unsigned short **__ctype_b_loc(void)
{
    if (!ctabp) { for (int i = 0; i < 128; i++) { unsigned short m = 0;
            if (i >= 'A' && i <= 'Z') m |= 1 << 8; if (i >= 'a' && i <= 'z') m |= 1 << 9; if (isalpha(i)) m |= 1 << 10; if (isdigit(i)) m |= 1 << 11; if (isxdigit(i)) m |= 1 << 12; if (isspace(i)) m |= 1 << 13; if (isprint(i)) m |= 1 << 14; if (i > 32 && i < 127) m |= 1 << 15; if (isalnum(i)) m |= 1 << 3;
            ctab[128 + i] = m; } ctabp = ctab + 128; }
    return &ctabp;
}
static int err_; int *__errno_location(void) { return &err_; }
char *strerror(int e) { (void)e; return (char *)"error"; }
char *getenv(const char *n) { (void)n; return 0; }

unsigned long strtoul(const char *s, char **e, int base) { unsigned long v = 0; while (isspace(*s)) s++; for (;;) { int d = isdigit((unsigned char)*s) ? *s - '0' : isalpha((unsigned char)*s) ? lc(*s) - 'a' + 10 : 99; if (d >= base) break; v = v * base + d; s++; } if (e) *e = (char *)s; return v; }
unsigned long long strtoull(const char *s, char **e, int base) { return strtoul(s, e, base); }
long strtol(const char *s, char **e, int base) { int n = 0; while (isspace(*s)) s++; if (*s == '-') { n = 1; s++; } unsigned long v = strtoul(s, e, base); return n ? -(long)v : (long)v; }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }

// ---- formatted output
int vsnprintf(char *buf, size_t cap, const char *fmt, va_list ap)
{
    size_t n = 0;
#define OUT(ch) do { char c_ = (ch); if (n + 1 < cap) buf[n] = c_; n++; } while (0)
    for (; *fmt; fmt++) {
        if (*fmt != '%') { OUT(*fmt); continue; }
        fmt++;
        int zero = 0, left = 0, plus = 0, alt = 0, width = 0, prec = -1, lng = 0;
        for (;; fmt++) { if (*fmt == '0') zero = 1; else if (*fmt == '-') left = 1; else if (*fmt == '+') plus = 1; else if (*fmt == '#') alt = 1; else if (*fmt == ' ') plus = 2; else break; }
        if (*fmt == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } fmt++; } else while (*fmt >= '0' && *fmt <= '9') width = width * 10 + (*fmt++ - '0');
        if (*fmt == '.') { fmt++; prec = 0; if (*fmt == '*') { prec = va_arg(ap, int); fmt++; } else while (*fmt >= '0' && *fmt <= '9') prec = prec * 10 + (*fmt++ - '0'); }
        for (;; fmt++) { if (*fmt == 'l') lng++; else if (*fmt == 'h') lng--; else if (*fmt == 'z' || *fmt == 'j' || *fmt == 't') lng = 2; else break; }
        char c = *fmt;
        if (c == '%') { OUT('%'); continue; }
        if (c == 'c') { char ch = (char)va_arg(ap, int); for (int i = 1; i < width && !left; i++) OUT(' '); OUT(ch); for (int i = 1; i < width && left; i++) OUT(' '); continue; }
        if (c == 's') {
            const char *s = va_arg(ap, const char *); if (!s) s = "(null)";
            size_t l = 0; while ((prec < 0 || l < (size_t)prec) && s[l]) l++;
            for (size_t i = l; i < (size_t)width && !left; i++) OUT(' ');
            for (size_t i = 0; i < l; i++) OUT(s[i]);
            for (size_t i = l; i < (size_t)width && left; i++) OUT(' ');
            continue;
        }
        if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
            uint64_t v; int neg = 0; unsigned base = c == 'o' ? 8 : (c == 'x' || c == 'X' || c == 'p') ? 16 : 10;
            if (c == 'p') { v = (uint64_t)va_arg(ap, void *); alt = 1; }
            else if (lng >= 1) v = va_arg(ap, uint64_t);
            else v = va_arg(ap, unsigned);
            if (c == 'd' || c == 'i') {
                int64_t sv = lng >= 1 ? (int64_t)v : lng == -1 ? (int16_t)v : lng <= -2 ? (int8_t)v : (int32_t)v;
                if (sv < 0) { neg = 1; v = 0 - (uint64_t)sv; } else v = (uint64_t)sv;
            } else if (lng == -1) v = (uint16_t)v; else if (lng <= -2) v = (uint8_t)v;
            char t[32]; int k = 0; int nz = v != 0;
            if (base == 10 && sym_is_symbolic(v)) {
                // the decimal digits are the unique ones whose Horner value is v
                int nd = (int)sym_choose(1, 20, "~digits"); uint64_t acc = 0, p10 = 1; for (int i = 1; i < nd; i++) p10 *= 10;
                sym_assume((nd == 1 || v >= p10) & (nd == 20 || v < p10 * 10));
                for (int i = 0; i < nd; i++, p10 /= 10) { unsigned d = sym_u64_hint("~digit", v / p10 % 10) & 15; sym_assume(d <= 9); if (!i && nd > 1) sym_assume(d != 0); acc = acc * 10 + d; t[nd - 1 - i] = (char)('0' + d); if (nd == 20 && !i) sym_assume(d == 1); }
                if (nd == 20) sym_assume(acc >= 10000000000000000000ull);
                sym_assume(acc == v); k = nd;
            } else if (base == 16 && zero && !left && prec < 0 && !alt && width >= (lng <= -2 ? 2 : lng == -1 ? 4 : lng == 0 ? 8 : 16)) {
                // every digit is shown: no need to know how many there are
                for (int nd = lng <= -2 ? 2 : lng == -1 ? 4 : lng == 0 ? 8 : 16; k < nd; v >>= 4) { unsigned d = v & 15, big = d > 9; t[k++] = (char)('0' + d + big * ((c == 'X' ? 'A' : 'a') - '0' - 10)); }
            } else
            do { unsigned d = (unsigned)(v % base); v /= base; t[k++] = d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10; } while (v);
            if (prec == 0 && !nz) k = 0;
            while (k < prec && k < 31) t[k++] = '0';
            char pre[3]; int np = 0;
            if (neg) pre[np++] = '-'; else if (plus && (c == 'd' || c == 'i')) pre[np++] = plus == 1 ? '+' : ' ';
            if (alt && base == 16 && nz) { pre[np++] = '0'; pre[np++] = c == 'X' ? 'X' : 'x'; }
            if (zero && !left && prec < 0) { for (int i = 0; i < np; i++) OUT(pre[i]); for (int i = k + np; i < width; i++) OUT('0'); while (k) OUT(t[--k]); }
            else { if (!left) for (int i = k + np; i < width; i++) OUT(' '); int kk = k; for (int i = 0; i < np; i++) OUT(pre[i]); while (k) OUT(t[--k]); if (left) for (int i = kk + np; i < width; i++) OUT(' '); }
            continue;
        }
        __builtin_trap(); // conversion not modelled
    }
    if (cap) buf[n < cap ? n : cap - 1] = 0;
    return (int)n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 40, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { (void)f; return 0; }
int vprintf(const char *f, va_list ap) { (void)f; (void)ap; return 0; }
int fprintf(SF *s, const char *f, ...) { (void)s; (void)f; return 0; }
int vfprintf(SF *s, const char *f, va_list ap) { (void)s; (void)f; (void)ap; return 0; }
int puts(const char *s) { (void)s; return 0; }
int putchar(int c) { return c; }
int fputs(const char *s, SF *f) { (void)s; (void)f; return 0; }
int fputc(int c, SF *f) { (void)f; return c; }
int fflush(SF *f) { (void)f; return 0; }
void perror(const char *s) { (void)s; }

// ---- a small in-memory file system
#define NF 8
#define FCAP (1 << 17)
static struct ff { char name[64]; unsigned char *data; size_t size; int used; } files[NF];
struct _FILE_ { int idx; size_t pos; int wr; };
SF *fopen(const char *name, const char *mode)
{
    int i, fre = -1;
    for (i = 0; i < NF; i++) { if (files[i].used && !strcmp(files[i].name, name)) break; if (!files[i].used && fre < 0) fre = i; }
    if (i == NF) { if (mode[0] != 'w' || fre < 0) { err_ = 2; return 0; } i = fre; files[i].used = 1; strncpy(files[i].name, name, 63); files[i].data = malloc(FCAP); }
    if (mode[0] == 'w') files[i].size = 0;
    SF *f = malloc(sizeof *f); f->idx = i; f->pos = 0; f->wr = mode[0] == 'w'; return f;
}
int fclose(SF *f) { free(f); return 0; }
int fileno(SF *f) { return 10 + f->idx; }
size_t fwrite(const void *p, size_t sz, size_t n, SF *f)
{
    struct ff *x = &files[f->idx]; size_t k = sz * n;
    if (!f->wr) return 0;
    if (f->pos + k > FCAP) __builtin_trap();
    memcpy(x->data + f->pos, p, k); f->pos += k; if (f->pos > x->size) x->size = f->pos; return n;
}
size_t fread(void *p, size_t sz, size_t n, SF *f)
{
    struct ff *x = &files[f->idx]; size_t av = sz ? (x->size - f->pos) / sz : 0; if (n > av) n = av;
    memcpy(p, x->data + f->pos, sz * n); f->pos += sz * n; return n;
}
int fseek(SF *f, long o, int w) { f->pos = w == 0 ? (size_t)o : w == 1 ? f->pos + o : files[f->idx].size + o; return 0; }
long ftell(SF *f) { return (long)f->pos; }
int feof(SF *f) { return f->pos >= files[f->idx].size; }
int ferror(SF *f) { (void)f; return 0; }
#include <sys/stat.h>
int fstat(int fd, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = 0100644; st->st_size = (off_t)files[fd - 10].size; return 0; }

void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    char *a = b, *t = malloc(sz);
    for (size_t i = 1; i < n; i++) { size_t j = i; memcpy(t, a + i * sz, sz); while (j && cmp(a + (j - 1) * sz, t) > 0) { memcpy(a + j * sz, a + (j - 1) * sz, sz); j--; } memcpy(a + j * sz, t, sz); }
    free(t);
}
