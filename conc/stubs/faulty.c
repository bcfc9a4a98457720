/*
 * Preloaded into a tool: FAULT_LOG=file logs every allocation ("a") and
 * every write to a stream other than standard error ("w") with its number
 * and the module-relative addresses of its callers; FAULT_W=n makes the n-th
 * write fail (only that one), FAULT_A=n the n-th allocation.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
static long nw, na, fw, fa;
static int log_ = -1, on, busy;
static void site(char kind, long n)
{
	void *b[12]; int i, k, c = 0; char buf[400]; int o;
	Dl_info in;
	busy = 1;
	k = backtrace(b, 12);
	o = snprintf(buf, sizeof buf, "%c %ld", kind, n);
	for (i = 2; i < k && c < 5; i++) {
		if (!dladdr(b[i], &in) || in.dli_fname == NULL) continue;
		if (strstr(in.dli_fname, "libc.so") || strstr(in.dli_fname, "faulty")) continue;
		o += snprintf(buf + o, sizeof buf - o, " %lx", (long)((char *)b[i] - (char *)in.dli_fbase));
		c++;
	}
	buf[o++] = '\n';
	if (write(log_, buf, o) < 0) { }
	busy = 0;
}
__attribute__((constructor)) static void init(void)
{
	const char *s; void *b[2];
	backtrace(b, 2);
	if ((s = getenv("FAULT_W"))) fw = atol(s);
	if ((s = getenv("FAULT_A"))) fa = atol(s);
	if ((s = getenv("FAULT_LOG"))) log_ = open(s, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0600);
	on = 1;
}
static int failw(FILE *f)
{
	if (!on || busy || f == stderr) return 0;
	nw++;
	if (log_ >= 0) site('w', nw);
	if (nw != fw) return 0;
	f->_flags |= 0x20;
	errno = ENOSPC;
	return 1;
}
static int faila(void)
{
	if (!on || busy) return 0;
	na++;
	if (log_ >= 0) site('a', na);
	if (na != fa) return 0;
	errno = ENOMEM;
	return 1;
}
void *malloc(size_t n) { return faila() ? NULL : __libc_malloc(n); }
void *calloc(size_t n, size_t m) { return faila() ? NULL : __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { return faila() ? NULL : __libc_realloc(p, n); }
void *reallocarray(void *p, size_t n, size_t m)
{
	if (m && n > SIZE_MAX / m) { errno = ENOMEM; return NULL; }
	return faila() ? NULL : __libc_realloc(p, n * m);
}
char *strdup(const char *s)
{
	char *p; size_t n = strlen(s) + 1;
	if (faila() || (p = __libc_malloc(n)) == NULL) return NULL;
	return memcpy(p, s, n);
}
char *__strdup(const char *s) { return strdup(s); }
char *strndup(const char *s, size_t m)
{
	char *p; size_t n = strnlen(s, m);
	if (faila() || (p = __libc_malloc(n + 1)) == NULL) return NULL;
	memcpy(p, s, n); p[n] = 0; return p;
}
char *__strndup(const char *s, size_t m) { return strndup(s, m); }
#define REAL(name) static __typeof__(&name) r; if (r == NULL) r = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static int rvf(FILE *f, const char *fmt, va_list ap)
{
	REAL(vfprintf);
	return r(f, fmt, ap);
}
int vfprintf(FILE *f, const char *fmt, va_list ap) { return failw(f) ? -1 : rvf(f, fmt, ap); }
int __vfprintf_chk(FILE *f, int g, const char *fmt, va_list ap) { return failw(f) ? -1 : rvf(f, fmt, ap); }
#define VA(f) int n; va_list ap; if (failw(f)) return -1; va_start(ap, fmt); n = rvf(f, fmt, ap); va_end(ap); return n
int fprintf(FILE *f, const char *fmt, ...) { VA(f); }
int __fprintf_chk(FILE *f, int g, const char *fmt, ...) { VA(f); }
int printf(const char *fmt, ...) { VA(stdout); }
int __printf_chk(int g, const char *fmt, ...) { VA(stdout); }
int vprintf(const char *fmt, va_list ap) { return failw(stdout) ? -1 : rvf(stdout, fmt, ap); }
int __vprintf_chk(int g, const char *fmt, va_list ap) { return failw(stdout) ? -1 : rvf(stdout, fmt, ap); }
static int rputc(int c, FILE *f)
{
	REAL(fputc);
	return r(c, f);
}
int fputc(int c, FILE *f) { return failw(f) ? EOF : rputc(c, f); }
#undef putc
int putc(int c, FILE *f) { return failw(f) ? EOF : rputc(c, f); }
int _IO_putc(int c, FILE *f) { return failw(f) ? EOF : rputc(c, f); }
#undef putchar
int putchar(int c) { return failw(stdout) ? EOF : rputc(c, stdout); }
static int rputs(const char *s, FILE *f)
{
	REAL(fputs);
	return r(s, f);
}
int fputs(const char *s, FILE *f) { return failw(f) ? EOF : rputs(s, f); }
int puts(const char *s) { return failw(stdout) || rputs(s, stdout) == EOF || rputc('\n', stdout) == EOF ? EOF : 1; }
size_t fwrite(const void *p, size_t n, size_t m, FILE *f)
{
	REAL(fwrite);
	return failw(f) ? 0 : r(p, n, m, f);
}
