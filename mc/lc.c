/* C library functions as seen by libzt under the controlled scheduler: bin/check renames libzt's calls of F to libzt_F
 * (objcopy --redefine-sym), so that the memory these functions touch is reported to the race detector, and calls
 * that write to a stream or descriptor are atomic steps at which other threads may run. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "ctl.h"
#include <stdarg.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <unistd.h>
#define RD(p, n, f) sc_race(p, n, 0, f)
#define WR(p, n, f) sc_race(p, n, 1, f)
void *libzt_memcpy(void *d, const void *s, size_t n) { RD(s, n, "memcpy"); WR(d, n, "memcpy"); return memcpy(d, s, n); }
void *libzt_memmove(void *d, const void *s, size_t n) { RD(s, n, "memmove"); WR(d, n, "memmove"); return memmove(d, s, n); }
void *libzt_memset(void *d, int c, size_t n) { WR(d, n, "memset"); return memset(d, c, n); }
void libzt_bzero(void *d, size_t n) { WR(d, n, "bzero"); memset(d, 0, n); }
int libzt_memcmp(const void *a, const void *b, size_t n) { RD(a, n, "memcmp"); RD(b, n, "memcmp"); return memcmp(a, b, n); }
size_t libzt_strlen(const char *s) { size_t n = strlen(s); RD(s, n + 1, "strlen"); return n; }
int libzt_strcmp(const char *a, const char *b) { RD(a, strlen(a) + 1, "strcmp"); RD(b, strlen(b) + 1, "strcmp"); return strcmp(a, b); }
int libzt_strncmp(const char *a, const char *b, size_t n) { RD(a, strnlen(a, n), "strncmp"); RD(b, strnlen(b, n), "strncmp"); return strncmp(a, b, n); }
char *libzt_strchr(const char *a, int c) { RD(a, strlen(a) + 1, "strchr"); return strchr(a, c); }
char *libzt_strrchr(const char *a, int c) { RD(a, strlen(a) + 1, "strrchr"); return strrchr(a, c); }
char *libzt_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; RD(s, n, "strcpy"); WR(d, n, "strcpy"); return strcpy(d, s); }
char *libzt_stpcpy(char *d, const char *s) { size_t n = strlen(s) + 1; RD(s, n, "stpcpy"); WR(d, n, "stpcpy"); return stpcpy(d, s); }
char *libzt_strncpy(char *d, const char *s, size_t n) { RD(s, strnlen(s, n), "strncpy"); WR(d, n, "strncpy"); return strncpy(d, s, n); }
char *libzt_strcat(char *d, const char *s) { size_t a = strlen(d), n = strlen(s) + 1; RD(d, a + 1, "strcat"); RD(s, n, "strcat"); WR(d + a, n, "strcat"); return strcat(d, s); }
char *libzt_strncat(char *d, const char *s, size_t m) { size_t a = strlen(d), n = strnlen(s, m); RD(d, a + 1, "strncat"); RD(s, n, "strncat"); WR(d + a, n + 1, "strncat"); return strncat(d, s, m); }
int libzt_vsprintf(char *d, const char *f, va_list ap) { int n = vsprintf(d, f, ap); WR(d, n + 1, "sprintf"); return n; }
int libzt_vsnprintf(char *d, size_t z, const char *f, va_list ap) { int n = vsnprintf(d, z, f, ap); if (z) WR(d, (size_t)n < z ? (size_t)n + 1 : z, "snprintf"); return n; }
#define VA(call) va_list ap; va_start(ap, f); int n = call; va_end(ap); return n
int libzt_sprintf(char *d, const char *f, ...) { VA(libzt_vsprintf(d, f, ap)); }
int libzt_snprintf(char *d, size_t z, const char *f, ...) { VA(libzt_vsnprintf(d, z, f, ap)); }
size_t libzt_strftime(char *d, size_t z, const char *f, const struct tm *tm) { RD(tm, sizeof *tm, "strftime"); size_t n = strftime(d, z, f, tm); WR(d, n + 1, "strftime"); return n; }
struct tm *libzt_localtime_r(const time_t *t, struct tm *tm) { RD(t, sizeof *t, "localtime_r"); WR(tm, sizeof *tm, "localtime_r"); return localtime_r(t, tm); }
struct tm *libzt_gmtime_r(const time_t *t, struct tm *tm) { RD(t, sizeof *t, "gmtime_r"); WR(tm, sizeof *tm, "gmtime_r"); return gmtime_r(t, tm); }
/* functions whose results live in memory shared by all threads */
struct tm *libzt_localtime(const time_t *t) { RD(t, sizeof *t, "localtime"); struct tm *r = localtime(t); WR(r, sizeof *r, "localtime"); sc_point("localtime"); return r; }
struct tm *libzt_gmtime(const time_t *t) { RD(t, sizeof *t, "gmtime"); struct tm *r = gmtime(t); WR(r, sizeof *r, "gmtime"); sc_point("gmtime"); return r; }
char *libzt_ctime(const time_t *t) { RD(t, sizeof *t, "ctime"); char *r = ctime(t); WR(r, 26, "ctime"); return r; }
char *libzt_asctime(const struct tm *t) { RD(t, sizeof *t, "asctime"); char *r = asctime(t); WR(r, 26, "asctime"); return r; }
static char strerr; static char strt;
char *libzt_strerror(int e) { WR(&strerr, 1, "strerror"); return strerror(e); }
char *libzt_strtok(char *s, const char *d) { WR(&strt, 1, "strtok"); return strtok(s, d); }
char *libzt_strerror_r(int e, char *b, size_t n) { WR(b, n, "strerror_r"); return strerror_r(e, b, n); }
int libzt___xpg_strerror_r(int e, char *b, size_t n) { extern int __xpg_strerror_r(int, char *, size_t); WR(b, n, "strerror_r"); return __xpg_strerror_r(e, b, n); }
/* output */
static FILE *closed[16]; static int nclosed;
static void stream(FILE *f, const char *what) { sc_event(what, f); if (sc_active) for (int i = 0; i < nclosed; i++) if (closed[i] == f) mc_fail("%s on a closed stream", what); }
static FILE *opened(FILE *f) { int k = 0; if (sc_active) for (int i = 0; i < nclosed; i++) if (closed[i] != f) closed[k++] = closed[i]; if (sc_active) nclosed = k; return f; }
FILE *libzt_fopen(const char *p, const char *m) { RD(p, strlen(p) + 1, "fopen"); return opened(fopen(p, m)); }
FILE *libzt_fdopen(int d, const char *m) { return opened(fdopen(d, m)); }
int libzt_vfprintf(FILE *s, const char *f, va_list ap) { RD(f, strlen(f) + 1, "vfprintf"); stream(s, "vfprintf"); return vfprintf(s, f, ap); }
int libzt_fprintf(FILE *s, const char *f, ...) { VA(libzt_vfprintf(s, f, ap)); }
int libzt_vprintf(const char *f, va_list ap) { return libzt_vfprintf(stdout, f, ap); }
int libzt_printf(const char *f, ...) { VA(libzt_vfprintf(stdout, f, ap)); }
int libzt_fputs(const char *t, FILE *s) { RD(t, strlen(t) + 1, "fputs"); stream(s, "fputs"); return fputs(t, s); }
int libzt_puts(const char *t) { RD(t, strlen(t) + 1, "puts"); stream(stdout, "puts"); return puts(t); }
int libzt_fputc(int c, FILE *s) { stream(s, "fputc"); return fputc(c, s); }
int libzt_putc(int c, FILE *s) { stream(s, "putc"); return putc(c, s); }
int libzt_putchar(int c) { stream(stdout, "putchar"); return putchar(c); }
size_t libzt_fwrite(const void *p, size_t z, size_t n, FILE *s) { RD(p, z * n, "fwrite"); stream(s, "fwrite"); return fwrite(p, z, n, s); }
int libzt_fflush(FILE *s) { stream(s, "fflush"); return fflush(s); }
int libzt_fclose(FILE *s) { stream(s, "fclose"); if (sc_active && nclosed < 16) closed[nclosed++] = s; return fclose(s); }
ssize_t libzt_write(int fd, const void *p, size_t n) { static char d[1024]; RD(p, n, "write"); sc_event("write", &d[fd & 1023]); return write(fd, p, n); }
int libzt_vdprintf(int fd, const char *f, va_list ap) { static char d[1024]; sc_event("dprintf", &d[fd & 1023]); return vdprintf(fd, f, ap); }
int libzt_dprintf(int fd, const char *f, ...) { VA(libzt_vdprintf(fd, f, ap)); }
