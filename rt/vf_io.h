// forced include: the code's file operations go to the harness (both in the symbolic and in the native program)
#include <stdio.h>
#include <sys/stat.h>
#ifdef __cplusplus
#include <cstdio>   // before the renaming, which it would undo
#include <string>
#endif
#ifdef __cplusplus
extern "C" {
#endif
FILE *vf_fopen(const char *, const char *); int vf_fclose(FILE *); int vf_fileno(FILE *); int vf_fstat(int, struct stat *); size_t vf_fwrite(const void *, size_t, size_t, FILE *); size_t vf_fread(void *, size_t, size_t, FILE *);
#ifdef __cplusplus
}
#endif
#define fopen vf_fopen
#define fclose vf_fclose
#undef fileno
#define fileno vf_fileno
#define fwrite vf_fwrite
#define fread vf_fread
#define fstat vf_fstat
