// forced include for the command line tools: files, output and exit go to the harness (both in the symbolic and in the native program)
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <sys/stat.h>
#ifdef __cplusplus
#include <cstdio>   // before the renaming, which they would undo
#include <cstdlib>
#include <string>
extern "C" {
#endif
FILE *vf_fopen(const char *, const char *); int vf_fclose(FILE *); int vf_fflush(FILE *); int vf_ferror(FILE *); int vf_fileno(FILE *); int vf_fstat(int, struct stat *); size_t vf_fwrite(const void *, size_t, size_t, FILE *); size_t vf_fread(void *, size_t, size_t, FILE *);
int vf_printf(const char *, ...); int vf_fprintf(FILE *, const char *, ...); int vf_puts(const char *); int vf_putchar(int); int vf_fputs(const char *, FILE *); int vf_fputc(int, FILE *);
void vf_exit(int) __attribute__((noreturn));
extern char vf_std[2];
#ifdef __cplusplus
}
#endif
#define fopen vf_fopen
#define fclose vf_fclose
#define fflush vf_fflush
#undef ferror
#define ferror vf_ferror
#undef fileno
#define fileno vf_fileno
#define fwrite vf_fwrite
#define fread vf_fread
#define fstat vf_fstat
#define printf vf_printf
#define fprintf vf_fprintf
#define puts vf_puts
#undef putchar
#define putchar vf_putchar
#define fputs vf_fputs
#define fputc vf_fputc
#undef putc
#define putc vf_fputc
#define exit vf_exit
#undef stdout
#undef stderr
#define stdout ((FILE *)&vf_std[0])
#define stderr ((FILE *)&vf_std[1])
