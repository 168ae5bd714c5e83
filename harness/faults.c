/* Stand-ins for the system calls and stdio functions the library uses, put in place by the linker (--wrap). They pass everything on, but for
 * one call, chosen in advance, which fails as the operating system may let it fail. A close that fails loses what was written through that
 * stream, as a device does that finds out late. */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>

enum { OPEN = 0, WRITE, CLOSE, READ, SEEK, MKDIR };
static int cls = -1, left = -1, err, fired;
void bfv_fault(int c, int n, int e) { cls = c; left = n; err = e; fired = 0; }
int bfv_fired(void) { return fired; }

static int hit(int c) {
    if(cls != c || left < 0) return 0;
    if(left-- > 0) return 0;
    fired ++;
    errno = err;
    return 1;
}

#define N 64
static struct stream { FILE * f; long lo, hi; int writes, bad; } table[N];
static struct stream * find(FILE * f) { int i; for(i = 0; i < N; i ++) if(table[i].f == f) return &table[i]; return NULL; }
static void opened(FILE * f, const char * mode) {
    struct stream * s = find(f);
    if(!s) s = find(NULL);
    if(!s) return;
    s->f = f; s->lo = -1; s->hi = -1; s->bad = 0; s->writes = strpbrk(mode, "wa+") != NULL;
}
long __real_ftell(FILE *);
static long before(FILE * f) { return cls == CLOSE && left >= 0 ? __real_ftell(f) : -1; }
static void after(FILE * f, long a) {
    struct stream * s = find(f);
    if(a < 0 || !s) return;
    long b = __real_ftell(f);
    if(s->lo < 0 || a < s->lo) s->lo = a;
    if(b > s->hi) s->hi = b;
}
static void bad(FILE * f) { struct stream * s = find(f); if(s) s->bad = 1; errno = err; }
static void ruin(int fd, long lo, long hi) { char c = 0x5e; for(; lo >= 0 && lo < hi; lo ++) if(1 != pwrite(fd, &c, 1, lo)) break; }

FILE * __real_fopen(const char *, const char *);
FILE * __wrap_fopen(const char * p, const char * m) { if(hit(OPEN)) return NULL; FILE * f = __real_fopen(p, m); if(f) opened(f, m); return f; }
FILE * __real_fopen64(const char *, const char *);
FILE * __wrap_fopen64(const char * p, const char * m) { if(hit(OPEN)) return NULL; FILE * f = __real_fopen64(p, m); if(f) opened(f, m); return f; }
FILE * __real_fdopen(int, const char *);
FILE * __wrap_fdopen(int fd, const char * m) { FILE * f = __real_fdopen(fd, m); if(f) opened(f, m); return f; }

size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void * p, size_t s, size_t n, FILE * f) {
    if(n && s && hit(WRITE)) { size_t r = __real_fwrite(p, s, n / 2, f); bad(f); return r; }
    long a = before(f); size_t r = __real_fwrite(p, s, n, f); after(f, a); return r;
}
int __real_vfprintf(FILE *, const char *, va_list);
int __wrap_vfprintf(FILE * f, const char * fmt, va_list ap) {
    if(hit(WRITE)) { bad(f); return -1; }
    long a = before(f); int r = __real_vfprintf(f, fmt, ap); after(f, a); return r;
}
int __wrap_fprintf(FILE * f, const char * fmt, ...) { va_list ap; va_start(ap, fmt); int r = __wrap_vfprintf(f, fmt, ap); va_end(ap); return r; }
int __real_fputs(const char *, FILE *);
int __wrap_fputs(const char * p, FILE * f) {
    if(hit(WRITE)) { bad(f); return EOF; }
    long a = before(f); int r = __real_fputs(p, f); after(f, a); return r;
}
int __real_fputc(int, FILE *);
int __wrap_fputc(int c, FILE * f) {
    if(hit(WRITE)) { bad(f); return EOF; }
    long a = before(f); int r = __real_fputc(c, f); after(f, a); return r;
}
int __wrap_putc(int c, FILE * f) { return __wrap_fputc(c, f); }
int __real_fflush(FILE *);
int __wrap_fflush(FILE * f) { if(f && hit(WRITE)) { bad(f); return EOF; } return __real_fflush(f); }
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void * p, size_t n) { if(n && hit(WRITE)) return -1; return __real_write(fd, p, n); }

int __real_fclose(FILE *);
int __wrap_fclose(FILE * f) {
    struct stream * s = find(f);
    if(hit(CLOSE)) {
        if(s && s->writes) { __real_fflush(f); ruin(fileno(f), s->lo, s->hi); }
        if(s) s->f = NULL;
        __real_fclose(f);
        errno = err;
        return EOF;
    }
    if(s) s->f = NULL;
    return __real_fclose(f);
}

size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void * p, size_t s, size_t n, FILE * f) {
    if(n && s && hit(READ)) { size_t r = __real_fread(p, s, n / 2, f); bad(f); return r; }
    return __real_fread(p, s, n, f);
}
char * __real_fgets(char *, int, FILE *);
char * __wrap_fgets(char * p, int n, FILE * f) { if(hit(READ)) { bad(f); return NULL; } return __real_fgets(p, n, f); }
ssize_t __real_getline(char **, size_t *, FILE *);
ssize_t __wrap_getline(char ** p, size_t * n, FILE * f) { if(hit(READ)) { bad(f); return -1; } return __real_getline(p, n, f); }
ssize_t __real_getdelim(char **, size_t *, int, FILE *);
ssize_t __wrap_getdelim(char ** p, size_t * n, int d, FILE * f) { if(hit(READ)) { bad(f); return -1; } return __real_getdelim(p, n, d, f); }
ssize_t __wrap___getdelim(char ** p, size_t * n, int d, FILE * f) { return __wrap_getdelim(p, n, d, f); }
int __real_fgetc(FILE *);
int __wrap_fgetc(FILE * f) { if(hit(READ)) { bad(f); return EOF; } return __real_fgetc(f); }
int __wrap_getc(FILE * f) { return __wrap_fgetc(f); }
#define SCAN(name) int name(FILE * f, const char * fmt, ...) { if(hit(READ)) { bad(f); return EOF; } \
    va_list ap; va_start(ap, fmt); int r = vfscanf(f, fmt, ap); va_end(ap); return r; }
SCAN(__wrap_fscanf)
SCAN(__wrap___isoc99_fscanf)
SCAN(__wrap___isoc23_fscanf)
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void * p, size_t n) { if(n && hit(READ)) return -1; return __real_read(fd, p, n); }
int __real_ferror(FILE *);
int __wrap_ferror(FILE * f) { struct stream * s = find(f); return (s && s->bad) || __real_ferror(f); }

int __real_fseek(FILE *, long, int);
int __wrap_fseek(FILE * f, long o, int w) { if(hit(SEEK)) return -1; return __real_fseek(f, o, w); }
int __real_fseeko(FILE *, off_t, int);
int __wrap_fseeko(FILE * f, off_t o, int w) { if(hit(SEEK)) return -1; return __real_fseeko(f, o, w); }
long __real_ftell(FILE *);
long __wrap_ftell(FILE * f) { if(hit(SEEK)) return -1; return __real_ftell(f); }
off_t __real_ftello(FILE *);
off_t __wrap_ftello(FILE * f) { if(hit(SEEK)) return -1; return __real_ftello(f); }
off_t __real_lseek(int, off_t, int);
off_t __wrap_lseek(int fd, off_t o, int w) { if(hit(SEEK)) return -1; return __real_lseek(fd, o, w); }
int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char * p, mode_t m) { if(hit(MKDIR)) return -1; return __real_mkdir(p, m); }
