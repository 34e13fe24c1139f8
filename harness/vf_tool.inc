// files and output of a tool under test
#include <errno.h>
#ifndef VOUT
#define VOUT 6000
#endif
struct vfile { const char *name; uint8_t *data; size_t size, cap; int exists; };
struct vhandle { vfile *f; size_t pos; int write, open, err; };
static vfile vfiles[4]; static vhandle vhandles[8]; static unsigned vopen, vopened, vtried;  static char vout[2][VOUT]; static size_t vlen[2]; char vf_std[2];
enum { F_NONE, F_OPEN, F_STAT, F_SHORT, F_CLOSE }; static int fault; static int fault_write; // one fault, for files being read or for files being written
static vfile *vfind(const char *n) { for (auto &f : vfiles) if (f.name && !strcmp(f.name, n)) return &f; return 0; }
static void vput(vfile *f, const char *name, const void *p, size_t n, size_t cap) { f->name = name; f->data = (uint8_t *)malloc(cap); memcpy(f->data, p, n); f->size = n; f->cap = cap; f->exists = 1; }
static void vappend(FILE *f, const char *p, size_t n)
{
    if (f == stdout || f == stderr) { int i = f == stderr; sym_assert(vlen[i] + n < sizeof vout[i], "the harness has room for the output"); memcpy(vout[i] + vlen[i], p, n); vlen[i] += n; return; }
    vhandle *h = (vhandle *)f; sym_assert(h->open && h->write, "output goes to a file open for writing");
    if (fault == F_SHORT && fault_write) { h->err = 1; return; }
    sym_assert(h->pos + n <= h->f->cap, "the harness has room for the file"); memcpy(h->f->data + h->pos, p, n); h->pos += n; h->f->size = h->pos;
}
extern "C" {
FILE *vf_fopen(const char *n, const char *m)
{
    vfile *f = vfind(n); int w = m[0] == 'w'; vtried++; if (!f || (fault == F_OPEN && fault_write == w) || (!w && !f->exists)) { errno = 2; return 0; }
    sym_assert(vopen < 8, "handles"); vhandle *h = &vhandles[vopen++]; h->f = f; h->pos = 0; h->write = w; h->open = 1; h->err = 0; vopened++; if (w) f->size = 0, f->exists = 1; return (FILE *)h;
}
int vf_fclose(FILE *f) { vhandle *h = (vhandle *)f; sym_assert(h->open, "a file is closed once"); h->open = 0; vopened--; return fault == F_CLOSE && h->write && fault_write ? -1 : 0; }
int vf_fflush(FILE *f) { return f != stdout && f != stderr && fault == F_SHORT && fault_write ? -1 : 0; }
int vf_ferror(FILE *f) { return f != stdout && f != stderr && ((vhandle *)f)->err; }
int vf_fileno(FILE *f) { return 3 + (int)((vhandle *)f - vhandles); }
int vf_fstat(int fd, struct stat *st) { memset(st, 0, sizeof *st); st->st_size = (off_t)vhandles[fd - 3].f->size; return fault == F_STAT && !fault_write ? -1 : 0; }
size_t vf_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (f != stdout && f != stderr && fault == F_SHORT && fault_write) { ((vhandle *)f)->err = 1; if (s * n > 1) vappend(f, (const char *)p, 0); return n / 2; } vappend(f, (const char *)p, s * n); return n; }
size_t vf_fread(void *p, size_t s, size_t n, FILE *f) { vhandle *h = (vhandle *)f; size_t k = s * n; if (k > h->f->size - h->pos) k = h->f->size - h->pos; if (fault == F_SHORT && !fault_write) k = k / 2; memcpy(p, h->f->data + h->pos, k); h->pos += k; return k / s; }
static int vfmt(FILE *f, const char *fmt, va_list ap) { static char t[3000]; int n = vsnprintf(t, sizeof t, fmt, ap); sym_assert(n >= 0 && (size_t)n < sizeof t, "the harness has room for a line"); vappend(f, t, (size_t)n); return n; }
int vf_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vfmt(stdout, fmt, ap); va_end(ap); return n; }
int vf_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vfmt(f, fmt, ap); va_end(ap); return n; }
int vf_puts(const char *s) { vappend(stdout, s, strlen(s)); vappend(stdout, "\n", 1); return 0; }
int vf_putchar(int c) { char x = (char)c; vappend(stdout, &x, 1); return c; }
int vf_fputs(const char *s, FILE *f) { vappend(f, s, strlen(s)); return 0; }
int vf_fputc(int c, FILE *f) { char x = (char)c; vappend(f, &x, 1); return c; }
static void (*vf_at_exit)(int);
void vf_exit(int code) { if (vf_at_exit) vf_at_exit(code); sym_end(); }
}
// runs the tool: what it does at its end is judged by fn
static void vrun(int (*m)(int, const char **), int argc, const char **argv, void (*fn)(int)) { vf_at_exit = fn; int r = m(argc, argv); vf_exit(r); }
