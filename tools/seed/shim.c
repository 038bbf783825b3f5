/*
 * Fault injection for demonstrations:  SHIM="fn[@path]:N:action[,...]"
 * action: an errno name, short, kill, killafter, hook (run $HOOK before), hookafter
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int counts[64];

static int
err(const char *s)
{
	if (!strcmp(s, "EIO")) return (EIO);
	if (!strcmp(s, "ENOSPC")) return (ENOSPC);
	if (!strcmp(s, "ENOENT")) return (ENOENT);
	if (!strcmp(s, "EACCES")) return (EACCES);
	if (!strcmp(s, "EMFILE")) return (EMFILE);
	if (!strcmp(s, "ECONNRESET")) return (ECONNRESET);
	return (EINVAL);
}

static void
run(void)
{
	char *h = getenv("HOOK"), *p = getenv("SHIM");
	if (h == NULL)
		return;
	p = p ? strdup(p) : NULL;
	unsetenv("SHIM");
	if (system(h)) {}
	if (p)
		setenv("SHIM", p, 1);
	free(p);
}

/* 0: go on, 1: fail (errno set), 2: short; *aft: what to do afterwards */
static int
check(const char *fn, const char *path, int *aft)
{
	char *e = getenv("SHIM"), buf[1024], *s, *sv, *c, *at, *a;
	int k = 0, n, r = 0;

	*aft = 0;
	if (e == NULL)
		return (0);
	snprintf(buf, sizeof buf, "%s", e);
	for (s = strtok_r(buf, ",", &sv); s != NULL; s = strtok_r(NULL, ",", &sv), k++) {
		c = strchr(s, ':');
		if (c == NULL)
			continue;
		*c++ = 0;
		a = strchr(c, ':');
		if (a == NULL)
			continue;
		*a++ = 0;
		at = strchr(s, '@');
		if (at != NULL)
			*at++ = 0;
		if (strcmp(s, fn) || (at != NULL && (path == NULL || strstr(path, at) == NULL)))
			continue;
		n = atoi(c);
		if (++counts[k] != n && n != 0)
			continue;
		if (!strcmp(a, "kill")) { kill(getpid(), SIGKILL); pause(); }
		else if (!strcmp(a, "killafter")) *aft = 1;
		else if (!strcmp(a, "hook")) run();
		else if (!strcmp(a, "hookafter")) *aft = 2;
		else if (!strcmp(a, "short")) r = 2;
		else { errno = err(a); return (1); }
	}
	return (r);
}

static void
after(int a)
{
	int e = errno;
	if (a == 1) { kill(getpid(), SIGKILL); pause(); }
	if (a == 2) run();
	errno = e;
}

static const char *
fdn(int fd)
{
	static __thread char b[1024], p[64];
	ssize_t n;
	int e = errno;
	snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
	n = readlink(p, b, sizeof b - 1);
	errno = e;
	b[n < 0 ? 0 : n] = 0;
	return (b);
}

#define REAL(t, n, args) static t (*r) args; int a, k; if (r == NULL) r = (t (*) args)dlsym(RTLD_NEXT, n)
#define WRAP(t, n, path, call, bad) k = check(n, path, &a); if (k == 1) return (bad); { t rv = call; after(a); return (rv); }

ssize_t read(int fd, void *b, size_t l)
{ REAL(ssize_t, "read", (int, void *, size_t)); WRAP(ssize_t, "read", fdn(fd), r(fd, b, k == 2 && l > 1 ? l / 2 : l), -1) }
ssize_t write(int fd, const void *b, size_t l)
{ REAL(ssize_t, "write", (int, const void *, size_t)); WRAP(ssize_t, "write", fdn(fd), r(fd, b, k == 2 ? l / 2 : l), -1) }
ssize_t writev(int fd, const struct iovec *v, int n)
{ REAL(ssize_t, "writev", (int, const struct iovec *, int)); WRAP(ssize_t, "writev", fdn(fd), r(fd, v, k == 2 ? n - 1 : n), -1) }
int link(const char *p, const char *q)
{ REAL(int, "link", (const char *, const char *)); WRAP(int, "link", q, r(p, q), -1) }
int unlink(const char *p)
{ REAL(int, "unlink", (const char *)); WRAP(int, "unlink", p, r(p), -1) }
int rename(const char *p, const char *q)
{ REAL(int, "rename", (const char *, const char *)); WRAP(int, "rename", q, r(p, q), -1) }
int close(int fd)
{ REAL(int, "close", (int)); WRAP(int, "close", fdn(fd), r(fd), -1) }
int ftruncate(int fd, off_t o)
{ REAL(int, "ftruncate", (int, off_t)); WRAP(int, "ftruncate", fdn(fd), r(fd, o), -1) }
off_t lseek(int fd, off_t o, int w)
{ REAL(off_t, "lseek", (int, off_t, int)); WRAP(off_t, "lseek", fdn(fd), r(fd, o, w), -1) }
int fclose(FILE *f)
{ REAL(int, "fclose", (FILE *)); k = check("fclose", f ? fdn(fileno(f)) : "", &a); { int rv = r(f); after(a); return (k == 1 ? EOF : rv); } }
int fflush(FILE *f)
{ REAL(int, "fflush", (FILE *)); k = check("fflush", f ? fdn(fileno(f)) : "", &a); if (k == 1) return (EOF); { int rv = r(f); after(a); return (rv); } }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{ REAL(size_t, "fwrite", (const void *, size_t, size_t, FILE *)); k = check("fwrite", f ? fdn(fileno(f)) : "", &a); if (k == 1) return (0); { size_t rv = r(b, s, k == 2 ? n / 2 : n, f); after(a); return (rv); } }
size_t fread(void *b, size_t s, size_t n, FILE *f)
{ REAL(size_t, "fread", (void *, size_t, size_t, FILE *)); k = check("fread", f ? fdn(fileno(f)) : "", &a); if (k == 1) return (0); { size_t rv = r(b, s, n, f); after(a); return (rv); } }
FILE *fopen(const char *p, const char *m)
{ REAL(FILE *, "fopen", (const char *, const char *)); WRAP(FILE *, "fopen", p, r(p, m), NULL) }
int open(const char *p, int f, ...)
{ va_list ap; int m; REAL(int, "open", (const char *, int, ...)); va_start(ap, f); m = va_arg(ap, int); va_end(ap); WRAP(int, "open", p, r(p, f, m), -1) }
