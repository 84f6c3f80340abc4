#define _GNU_SOURCE
#include "wrapio.h"
#include "vrt.h"
#include <dirent.h>
#include <stdio_ext.h>
#include <time.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <sys/stat.h>
#include <pthread.h>
#include <unistd.h>

extern FILE *__real_fopen(const char *, const char *);
extern int __real_fclose(FILE *);
extern size_t __real_fread(void *, size_t, size_t, FILE *);
extern size_t __real_fwrite(const void *, size_t, size_t, FILE *);
extern int __real_fseek(FILE *, long, int);
extern long __real_ftell(FILE *);
extern int __real_fputs(const char *, FILE *);
extern DIR *__real_opendir(const char *);
extern int __real_closedir(DIR *);
extern int __real_remove(const char *);
extern int __real_unlink(const char *);
extern int __real_mkdir(const char *, mode_t);

extern __thread int vr_internal;
#define on (on_ && !vr_internal)
static int on_; static uint64_t calls[IO_NCLASS], any;
static uint64_t failat[IO_NCLASS]; static int fsticky[IO_NCLASS];
static uint64_t anyat; static int anysticky; static uint32_t anymask = ~0u;
static int failed, failedcls, limit_open = 1 << 30;
#define MAXO 4096
static FILE *of[MAXO]; static int nof; static DIR *od[64]; static int nod;
static char removed[256][256]; static int nremoved;
void (*io_on_fopen)(const char *, const char *);
static pthread_mutex_t lk = PTHREAD_MUTEX_INITIALIZER;
extern int __real_pthread_mutex_lock(pthread_mutex_t *) __attribute__((weak));
extern int __real_pthread_mutex_unlock(pthread_mutex_t *) __attribute__((weak));
static void LOCK(void) { if (__real_pthread_mutex_lock) __real_pthread_mutex_lock(&lk); else pthread_mutex_lock(&lk); }
static void UNLOCK(void) { if (__real_pthread_mutex_unlock) __real_pthread_mutex_unlock(&lk); else pthread_mutex_unlock(&lk); }
static const char *names[] = { "fopen", "fclose", "fread", "fwrite", "fseek",
	"ftell", "fputs", "opendir", "remove", "mkdir" };
const char *io_class_name(int c) { return c < 0 ? "none" : names[c]; }

static int failedof[IO_NCLASS];
void io_begin(void) {
	memset(calls, 0, sizeof calls); any = 0;
	memset(failat, 0, sizeof failat); anyat = 0; anymask = ~0u;
	memset(failedof, 0, sizeof failedof);
	failed = 0; failedcls = -1; limit_open = 1 << 30;
	nof = nod = 0; nremoved = 0;
	on_ = 1;
}
void io_end(void) { on_ = 0; }
void io_fail_at(int c, uint64_t n, int st) { failat[c] = n ? calls[c] + n : 0; fsticky[c] = st; failed = 0; failedcls = -1; }
void io_fail_any_at(uint64_t n, int st) { anyat = n ? any + n : 0; anysticky = st; failed = 0; failedcls = -1; }
void io_fail_mask(uint32_t m) { anymask = m; }
int io_failed_of(int c) { return failedof[c]; }
int io_failed(void) { return failed; }
int io_failed_class(void) { return failedcls; }
uint64_t io_calls(int c) { return calls[c]; }
uint64_t io_calls_any(void) { return any; }
int io_open_files(void) { return nof; }
int io_open_dirs(void) { return nod; }
void io_limit_open(int n) { limit_open = n; }
int io_removed_count(void) { return nremoved; }
const char *io_removed(int i) { return removed[i]; }

static int hit(int c) {
	int r = 0;
	if (!on) return 0;
	LOCK();
	calls[c]++;
	if (anymask & (1u << c)) {
		any++;
		if (anyat && (any == anyat || (anysticky && any > anyat))) r = 1;
	}
	if (failat[c] && (calls[c] == failat[c] || (fsticky[c] && calls[c] > failat[c]))) r = 1;
	if (r) { if (!failed) failedcls = c; failed++; failedof[c]++; }
	UNLOCK();
	return r;
}
/* Is the path inside the scratch directory (or the current directory inside
 * it)? Anything else is refused, so that a broken library cannot reach it. */
static int contained(const char *path) {
	char full[PATH_MAX * 2], dir[PATH_MAX * 2];
	const char *root = vr_scratch();
	char rootreal[PATH_MAX];
	if (root == NULL || realpath(root, rootreal) == NULL) return 0;
	snprintf(dir, sizeof dir, "%s", path);
	char *s = strrchr(dir, '/');
	if (s == dir) s[1] = 0;
	else if (s) *s = 0;
	else strcpy(dir, ".");
	if (realpath(dir[0] ? dir : ".", full) == NULL) return 1; /* cannot exist */
	size_t n = strlen(rootreal);
	return strncmp(full, rootreal, n) == 0 && (full[n] == '/' || full[n] == 0);
}
int io_mkdir_errno;
static int refuse(const char *what, const char *path) {
	if (!on || contained(path)) return 0;
	vr_fail("io:escape", "%s of '%s', outside of the directories given", what, path);
	errno = EACCES;
	return 1;
}

FILE *__wrap_fopen(const char *p, const char *m) {
	if (!on) return __real_fopen(p, m);
	if (io_on_fopen) io_on_fopen(p, m);
	if (hit(IO_FOPEN)) { errno = EMFILE; return NULL; }
	if (strpbrk(m, "wa+") && refuse("write open", p)) return NULL;
	LOCK();
	if (nof >= limit_open) { UNLOCK(); errno = EMFILE; return NULL; }
	UNLOCK();
	FILE *f = __real_fopen(p, m);
	if (f) {
		LOCK();
		if (nof == MAXO) vr_harness_error("file table full");
		of[nof++] = f;
		UNLOCK();
	}
	return f;
}
int __wrap_fclose(FILE *f) {
	if (!on) return __real_fclose(f);
	LOCK();
	int i;
	for (i = 0; i < nof; i++) if (of[i] == f) break;
	if (i == nof) {
		UNLOCK();
		vr_fail("io:double-close", "fclose of a file that is not open");
		return EOF;
	}
	of[i] = of[--nof];
	UNLOCK();
	int bad = hit(IO_FCLOSE);
	if (bad && __fwriting(f)) __fpurge(f); /* what was not written is lost */
	int r = __real_fclose(f);
	if (bad) { errno = ENOSPC; return EOF; }
	return r;
}
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) {
	if (hit(IO_FREAD)) {
		/* nothing, or fewer items than asked for; position moves as it would */
		size_t k = (vr_seed() + calls[IO_FREAD]) & 1 ? n / 2 : 0;
		size_t got = k ? __real_fread(b, s, k, f) : 0;
		f->_flags |= 0x20; /* ferror */
		errno = EIO;
		return got;
	}
	return __real_fread(b, s, n, f);
}
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) {
	if (hit(IO_FWRITE)) {
		size_t k = n / 2;
		size_t got = k ? __real_fwrite(b, s, k, f) : 0;
		f->_flags |= 0x20; /* ferror */
		errno = ENOSPC;
		return got;
	}
	return __real_fwrite(b, s, n, f);
}
int __wrap_fseek(FILE *f, long o, int w) {
	if (hit(IO_FSEEK)) { errno = EIO; return -1; }
	return __real_fseek(f, o, w);
}
long __wrap_ftell(FILE *f) {
	if (hit(IO_FTELL)) { errno = EIO; return -1; }
	return __real_ftell(f);
}
int __wrap_fputs(const char *s, FILE *f) {
	if (hit(IO_FPUTS)) { errno = ENOSPC; return EOF; }
	return __real_fputs(s, f);
}
DIR *__wrap_opendir(const char *p) {
	if (hit(IO_OPENDIR)) { errno = EMFILE; return NULL; }
	DIR *d = __real_opendir(p);
	if (d && on) { LOCK(); if (nod < 64) od[nod++] = d; UNLOCK(); }
	return d;
}
int __wrap_closedir(DIR *d) {
	if (on) {
		int i;
		LOCK();
		for (i = 0; i < nod; i++) if (od[i] == d) { od[i] = od[--nod]; i = -1; break; }
		UNLOCK();
		if (i >= 0) {
			vr_fail("io:double-closedir", "closedir of a directory that is not open");
			return -1;
		}
	}
	return __real_closedir(d);
}
static int removal(const char *what, const char *p, int (*fn)(const char *)) {
	if (hit(IO_REMOVE)) { errno = EBUSY; return -1; }
	if (refuse(what, p)) return -1;
	if (on) {
		LOCK();
		if (nremoved < 256) snprintf(removed[nremoved++], 256, "%s", p);
		UNLOCK();
	}
	return fn(p);
}
int __wrap_remove(const char *p) { return removal("removal", p, __real_remove); }
int __wrap_unlink(const char *p) { return removal("unlink", p, __real_unlink); }
int __wrap_mkdir(const char *p, mode_t m) {
	if (hit(IO_MKDIR)) { errno = io_mkdir_errno ? io_mkdir_errno : EACCES; return -1; }
	if (refuse("mkdir", p)) return -1;
	return __real_mkdir(p, m);
}

/* A clock so coarse that it only changes every n-th time it is read. */
extern int __real_clock_gettime(clockid_t, struct timespec *);
static unsigned coarse, coarse_n; static struct timespec coarse_t;
void io_coarse_clock(unsigned n) { coarse = n; coarse_n = 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
	int r = __real_clock_gettime(c, t);
	if (!on || !coarse || c != CLOCK_REALTIME || r) return r;
	if (coarse_n++ % coarse == 0) {
		/* always another time than the last */
		if (t->tv_nsec == coarse_t.tv_nsec) t->tv_nsec = (t->tv_nsec + 1) % 1000000000;
		coarse_t = *t;
	}
	else *t = coarse_t;
	return r;
}
